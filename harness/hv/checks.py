"""One function per property."""
from . import ex_algebra as xa
from . import ex_discrete as xd
from . import ex_grammar as xr
from . import ex_linalg as xl
from . import ex_memory as xy
from . import ex_models as xm
from . import ex_objects as xo
from . import ex_plots as xp
from . import ex_report as xq
from . import ex_session as xs
from . import ex_signals as xg
from .core import Run, report

ALL_SHAPES = {(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)}
ODD = {'zero', 'small', 'big', 'slow'}


def arith(run, ops, reps):
    q = run.quick
    sc = run.scenarios('ScAlgebra', dict(
        Ops=set(ops), Shapes={(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)} if not q else
        {(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)},
        Dts={'null', 'dt1'}, ArrShapes1={1, 2, 3},
        ArrShapes2={(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)}, Mixed=False, Flavours=ODD))
    run.execute(xa.binary, [(s, run.seed, r) for s in sc for r in range(reps)])


def p01(run):
    arith(run, ['add', 'sub'], 1 if run.quick else 6)
    run.execute(xa.negate, [({'k': k, 'p': p, 'm': m, 'gain': g, 'dt': dt}, run.seed, r)
                            for k in 'ST' for p, m in sorted(ALL_SHAPES) for g in (False, True)
                            for dt in ('null', 'dt1') for r in range(4 if run.quick else 20)])
    return report(run, run.judge(), ARITH)


def p02(run):
    arith(run, ['mul', 'matmul'], 1 if run.quick else 6)
    return report(run, run.judge(), ARITH)


def p03(run):
    arith(run, ['div'], 3 if run.quick else 9)
    return report(run, run.judge(), ARITH | {'accepted-invalid'})


def models(run, fns, shapes, reps, dts=frozenset({'null', 'dt1'})):
    sc = run.scenarios('ScModels', dict(Fns=set(fns), Shapes=shapes, Dts=dts))
    run.execute(xm.call, [(s, run.seed, r) for s in sc for r in range(reps)])


def p06(run):
    models(run, ['conv'], ALL_SHAPES | {(1, 3), (3, 1)}, 2 if run.quick else 12)
    return report(run, run.judge(), VALUE | {'not-unchanged', 'kind', 'dt'})


def p07(run):
    models(run, ['index'], {(1, 1), (1, 3), (2, 2), (3, 2)} if run.quick else
           {(1, 1), (1, 2), (1, 3), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3)}, 1)
    return report(run, run.judge(), VALUE | {'accepted-invalid', 'kind', 'dt', 'operands-changed'})


def p08(run):
    models(run, ['feedback'], {(1, 1), (1, 2), (2, 1), (2, 2)} if run.quick else ALL_SHAPES, 1 if run.quick else 4)
    return report(run, run.judge(), VALUE | {'accepted-invalid', 'accepted-dt', 'error-class', 'dt-error-class'})


def p17(run):
    models(run, ['dc'], ALL_SHAPES, 6 if run.quick else 40)
    return report(run, run.judge(), VALUE)


def p18(run):
    models(run, ['minreal'], ALL_SHAPES, 6 if run.quick else 40)
    return report(run, run.judge(), VALUE | {'order', 'kind', 'dt'})


def linalg(run, fns, reps, big=None):
    sc = run.scenarios('ScLinalg', dict(Fns=set(fns), Big=not run.quick if big is None else big))
    run.execute(xl.call, [(s, run.seed, r) for s in sc for r in range(reps)])
    return report(run, run.judge())


def p19(run):
    return linalg(run, ['stair', 'hess'], 1 if run.quick else 4)


def p20(run):
    return linalg(run, ['kmat', 'kdec'], 1 if run.quick else 4)


def p21(run):
    return linalg(run, ['gcd', 'lcm'], 1 if run.quick else 4)


def p22(run):
    return linalg(run, ['poly'], 2 if run.quick else 12)


def p23(run):
    return linalg(run, ['lyap'], 2 if run.quick else 8)


def p30(run):
    return linalg(run, ['helpers'], 1 if run.quick else 8)


def figures(run, fns, reps):
    sc = run.scenarios('ScPlots', dict(Fns=set(fns), Big=not run.quick))
    run.execute(xp.call, [(s, run.seed, r) for s in sc for r in range(reps)])


def p31(run):
    figures(run, ['plot'], 1 if run.quick else 2)
    return report(run, run.judge(), {
        'refused-valid', 'malformed', 'panels', 'lines', 'hidden', 'scale', 'critical-point', 'grid', 'mag', 'phase', 'unwrapped',
        'nyquist-line', 'locus', 'mirror', 'time', 'hold', 'units', 'style', 'operands-changed'})


def p32(run):
    figures(run, ['rand', 'cat'], 2 if run.quick else 6)
    return report(run, run.judge(), {
        'refused-valid', 'accepted-invalid', 'malformed', 'not-a-model', 'shape', 'kind', 'dt', 'stability', 'pole-kind', 'value',
        'shares-memory', 'operands-changed'})


def p33(run):
    return linalg(run, ['cidx', 'cancel'], 4 if run.quick else 20)


def p34(run):
    return linalg(run, ['tzeros'], 4 if run.quick else 20)


def reports(run, fns, reps):
    sc = run.scenarios('ScReport', dict(Fns=set(fns), Big=not run.quick))
    run.execute(xq.call, [(s, run.seed, r) for s in sc for r in range(reps)])


def p35(run):
    reports(run, ['array', 'repr'], 2 if run.quick else 10)
    return report(run, run.judge(), {
        'refused-valid', 'accepted-invalid', 'malformed', 'shape', 'value', 'shares-memory', 'class', 'domain', 'period', 'size', 'poles', 'zeros',
        'operands-changed'})


def discrete(run, fns, shapes, dts, reps, depth=1):
    sc = run.scenarios('ScDiscrete', dict(Fns=set(fns), Shapes=shapes, Dts=dts, Depth=depth, Rich=not run.quick))
    run.execute(xd.call, [(s, run.seed, r) for s in sc for r in range(reps)])


FEW_SHAPES = {(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)}


def p09(run):
    discrete(run, ['disc'], FEW_SHAPES if run.quick else ALL_SHAPES, {'dt1', 'dt3'} if run.quick else {'dt1', 'dt2', 'dt3'},
             1 if run.quick else 3)
    return report(run, run.judge(), VALUE | {'kind', 'dt', 'warp'})


def p10(run):
    discrete(run, ['hold'], ALL_SHAPES | {(1, 3)}, {'dt1', 'dt2', 'dt3'}, 2 if run.quick else 10)
    return report(run, run.judge(), VALUE | {'kind', 'dt'})


def p11(run):
    discrete(run, ['round'], {(1, 1), (1, 2), (2, 2)} if run.quick else ALL_SHAPES, {'dt1', 'dt2'}, 1 if run.quick else 2)
    return report(run, run.judge(), VALUE | {'kind', 'dt'})


def p12(run):
    discrete(run, ['book'], {(1, 1)}, {'dt1'}, 1, 2 if run.quick else 3)
    return report(run, run.judge())


def objects(run):
    q = run.quick
    sc = run.behaviours('ScObjects', dict(Shapes=ALL_SHAPES, Dts={'null', 'dt1'}, Depth=1))
    sc += run.behaviours('ScObjects', dict(Shapes={(1, 1), (2, 1)} if q else {(1, 1), (1, 2), (2, 1), (2, 2)}, Dts={'null', 'dt1'}, Depth=2))
    run.execute(xo.history, [(s, run.seed, r) for s in sc for r in range(1 if q else 2)])


def sessions(run, num, depth, kinds, shapes=FEW_SHAPES, cap=8):
    """Exhaustive exploration of short sessions on the specification, replay of long random ones."""
    base = dict(Dts={'null', 'dt1'}, Cap=cap, Kinds=set(kinds))
    deep = not run.quick and 'bad' not in kinds          # arrays and junk operands multiply the branching
    run.model('ScWorkspace', dict(base, Shapes={(1, 1), (1, 2)}, NSlots=2, Depth=2 if deep else 1, Tell=False))
    sc = run.behaviours('ScWorkspace', dict(base, Shapes=shapes, NSlots=4, Depth=depth, Tell=True), workers=1,
                        extra=('-simulate', 'num=%d' % num, '-depth', str(2*depth + 6), '-seed', str(run.seed)))
    run.execute(xs.session, [(s, run.seed, 0) for s in sc])


ALLOPS = ['bin', 'arr', 'bad', 'neg', 'minreal', 'conv', 'index', 'fb', 'set']


def p04(run):
    q = run.quick
    sc = run.scenarios('ScAlgebra', dict(Ops={'add', 'sub', 'mul', 'matmul', 'div'}, Shapes={(1, 1), (2, 2)},
                                         Dts={'null', 'dt1', 'dt2'}, ArrShapes1={2}, ArrShapes2={(2, 2)}, Mixed=True, Flavours={'zero'}))
    run.execute(xa.binary, [(s, run.seed, r) for s in sc for r in range(1 if q else 3)])
    models(run, ['feedback'], {(1, 1), (2, 2)}, 1 if q else 4, {'null', 'dt1', 'dt2'})
    models(run, ['conv', 'minreal'], {(1, 1), (1, 2), (2, 1), (2, 2)}, 1 if q else 4, {'null', 'dt1'})
    sessions(run, 600 if q else 6000, 10, ['bin', 'neg', 'minreal', 'conv', 'index', 'fb', 'set'], {(1, 1), (2, 2), (1, 2)})
    return report(run, run.judge(), {'dt', 'accepted-dt', 'dt-error-class', 'operands-changed'})


def p05(run):
    q = run.quick
    sh = {(p, m) for p in (1, 2, 3) for m in (1, 2, 3)}
    sc = run.scenarios('ScAlgebra', dict(Ops={'add', 'sub', 'mul', 'matmul', 'div'}, Shapes=FEW_SHAPES | {(3, 2)} if q else sh,
                                         Dts={'null'} if q else {'null', 'dt1'}, ArrShapes1={1, 2, 3}, ArrShapes2=sh, Mixed=False, Flavours={'zero'}))
    run.execute(xa.binary, [(s, run.seed, r) for s in sc for r in range(1 if q else 2)])
    one = [{'k': k, 'p': p, 'm': m, 'gain': g, 'dt': 'null'} for k in 'ST' for p, m in ((1, 1), (1, 2), (2, 2)) for g in (True, False)]
    run.execute(xs.refuse, [({'x': x, 'y': y, 'op': op, 'left': lt}, run.seed, 0) for x in one for y in sorted(xs.JUNK)
                            for op in sorted(xa.OPS) for lt in (True, False)])
    sessions(run, 600 if q else 6000, 8, ALLOPS)
    return report(run, run.judge(), {'kind', 'shape', 'malformed', 'not-a-model', 'refused-valid', 'accepted-invalid', 'counts', 'to-array'})


def p16(run):
    q = run.quick
    sc = run.scenarios('ScMemory', dict(Sharing=False))
    run.execute(xy.call, [(s, run.seed, r) for s in sc for r in range(2 if q else 12)])
    sessions(run, 200 if q else 2000, 8, ['bin', 'arr', 'neg', 'minreal', 'conv', 'index', 'fb', 'set'], {(1, 1), (2, 2), (1, 2)})
    return report(run, run.judge(), {'argument-changed', 'shared-memory', 'operands-changed'})


def signals(run, fns, reps):
    sc = run.scenarios('ScSignals', dict(Fns=set(fns), Big=not run.quick))
    run.execute(xg.call, [(s, run.seed, r) for s in sc for r in range(reps)])
    return report(run, run.judge())


def p15(run):
    sc = run.scenarios('ScGrammar', dict(Big=not run.quick))
    run.execute(xr.build, [(s, run.seed, r) for s in sc for r in range(1, 2 if run.quick else 4)])
    return report(run, run.judge())


def p24(run):
    return signals(run, ['freq', 'grid'], 1 if run.quick else 6)


def p25(run):
    return signals(run, ['sim', 'resp'], 1 if run.quick else 6)


def p26(run):
    return signals(run, ['auto'], 1 if run.quick else 6)


def p27(run):
    return signals(run, ['norm'], 1 if run.quick else 6)


def p28(run):
    return signals(run, ['lqr'], 1 if run.quick else 6)


def p29(run):
    return signals(run, ['ack'], 3 if run.quick else 12)


def p13(run):
    objects(run)
    sc = run.scenarios('ScModels', dict(Fns={'dc'}, Shapes=ALL_SHAPES, Dts={'null', 'dt1'}))
    run.execute(xo.history, [({'x': s['x'], 'acts': []}, run.seed, r) for s in sc
                             if s['x']['fl'] != 'faint' for r in range(3 if run.quick else 12)])
    run.events = [e for e in run.events if e['t'] == 'obj']
    reports(run, ['props'], 1 if run.quick else 6)
    return report(run, run.judge(), {'poles', 'zeros', 'stability', 'damping', 'integrator', 'frequency', 'mode', 'gain'})


def p14(run):
    objects(run)
    return report(run, run.judge(), {'not-atomic', 'refused-valid', 'accepted-invalid', 'not-assigned', 'as-built', 'counts', 'to-array', 'malformed', 'not-a-model', 'value'})


ARITH = VALUE = {'refused-valid', 'not-a-model', 'malformed', 'shape', 'value'}

CHECKS = {k.upper(): v for k, v in sorted(globals().items()) if k[0] == 'p' and k[1:].isdigit()}

NOT_APPLICABLE = {}
