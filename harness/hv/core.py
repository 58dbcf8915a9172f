"""The check driver: enumerate -> execute -> judge -> report."""
import collections
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import tlc

VERIF = tlc.VERIF
# the library raised on valid data before the call under test; the recorded call is not of any form the specification knows
ALWAYS = {'prep-raised', 'outside-spec'}
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def _init():
    import warnings
    warnings.simplefilter('ignore')
    import harold                                      # noqa: F401


def _call(task):
    func, args = task
    try:
        return func(*args)
    except Exception as e:
        # The library raised while valid data were being prepared: an event of its own.
        where = [os.path.basename(f.filename) + ':' + f.name for f in traceback.extract_tb(e.__traceback__)
                 if os.sep + 'harold' + os.sep in f.filename]
        if not where:
            raise
        return [{'t': 'prep', 'sig': 'prep ' + where[-1], 'args': json.dumps(args, default=str)[:600],
                 'out': {'t': 'err', 'e': type(e).__name__, 'msg': str(e)[:200]}}]


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.states = self.transitions = 0
        self.events = []
        self.counts = collections.Counter()
        self.assumptions = []
        self.log = []

    # -- specification side -------------------------------------------------
    def model(self, module, constants=None, env=None, **kw):
        """Model check a design module; returns the TLC result."""
        r = tlc.must(tlc.run(module, self.dir, constants, env=env, **kw), module)
        self.states += r['states']
        self.transitions += r['transitions']
        return r

    def scenarios(self, module, constants=None, **kw):
        out = os.path.join(self.dir, 'sc_%d.json' % len(os.listdir(self.dir)))
        self.model(module, constants, env={'OUT': out}, **kw)
        with open(out) as f:
            s = json.load(f)
        s.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.counts['scenarios'] += len(s)
        return s

    def behaviours(self, module, constants=None, **kw):
        """The behaviours a module prints, in a fixed order."""
        s = self.model(module, constants, **kw)['prints']
        s.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.counts['scenarios'] += len(s)
        return s

    # -- library side -------------------------------------------------------
    def execute(self, func, argss):
        """func(*args) -> list of events, in worker processes importing the working tree."""
        argss = list(argss)
        if not argss:
            return []
        ctx = multiprocessing.get_context('fork')
        # a library that cannot be imported, or a worker that dies, ends the check with an error
        with concurrent.futures.ProcessPoolExecutor(8, ctx, _init) as pool:
            evs = [e for es in pool.map(_call, [(func, a) for a in argss], chunksize=max(1, len(argss)//64))
                   for e in es]
        self.events += evs
        return evs

    # -- judging ------------------------------------------------------------
    def judge(self, events=None, module='Judge', workers=8, part=4000):
        events = self.events if events is None else events
        verdicts = {}
        n = len(events)
        for lo in range(0, n, part):
            chunk = events[lo:lo + part]
            path = os.path.join(self.dir, 'events.ndjson')
            with open(path, 'w') as f:
                for e in chunk:
                    f.write(json.dumps(e) + '\n')
            r = tlc.run(module, self.dir, env={'EVENTS': path}, workers=workers)
            if r['code'] != 0:
                bad = self.outside(chunk, module)
                if bad is None:
                    tlc.must(r, module)
                verdicts[lo + bad] = ['outside-spec']
                continue
            self.states += r['states']
            self.transitions += r['transitions']
            if r['states'] != 2*len(chunk):
                raise tlc.TLCError('judge looked at {} states for {} events'.format(r['states'], len(chunk)))
            for p in r['prints']:
                verdicts[lo + p['i'] - 1] = sorted(p['v'])
        return verdicts

    def outside(self, chunk, module):
        """Index of a recorded call the specification has no words for (evaluating it alone fails), or None."""
        path = os.path.join(self.dir, 'events.ndjson')

        def fails(evs):
            with open(path, 'w') as f:
                for e in evs:
                    f.write(json.dumps(e) + '\n')
            return tlc.run(module, self.dir, env={'EVENTS': path})['code'] != 0
        lo, hi = 0, len(chunk)
        while hi - lo > 1:
            mid = (lo + hi)//2
            if fails(chunk[lo:mid]):
                hi = mid
            else:
                lo = mid
        return lo if fails(chunk[lo:hi]) else None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d['property'] == prop:
                        out.append(d)
    return out


def report(run, verdicts, clauses=None, level='model_checking', rule='', samples=None, extra=None):
    """Write evidence, print verdict lines, return the exit code.

    clauses: the clauses that belong to the property (None: all of them).
    A clause written k:name is the exactly modelled deviation of known finding `name`.
    """
    bad, inconclusive, known = [], 0, collections.Counter()
    for i, v in sorted(verdicts.items()):
        hard = []
        for c in v:
            if c.startswith('~'):
                inconclusive += 1
            elif c.startswith('k:'):
                if clauses is None or 'value' in clauses:
                    known[c[2:]] += 1
            elif clauses is None or c.split(':')[0] in clauses | ALWAYS:
                hard.append(c)
        if hard:
            bad.append((i, hard))
    evs = run.events
    findings = {f['id']: f for f in load_findings(run.prop)}
    for k in list(known):
        if k not in findings:
            # an exactly modelled deviation that is not on record counts as a violation
            for i, v in sorted(verdicts.items()):
                if 'k:' + k in v:
                    bad.append((i, ['k:' + k]))
            del known[k]
    for k, n in sorted(known.items()):
        print('KNOWN-FINDING: property={} {} ({} calls)'.format(run.prop, findings[k]['what'], n))
    digest = [hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest() for e in evs]
    outcomes = collections.Counter(e.get('t', '?') + '/' + (e.get('out', {}).get('t', '-') if isinstance(e.get('out'), dict) else '-')
                                   for e in evs)
    cov = {'states': run.states, 'transitions': run.transitions,
           'traces_validated_against_impl': len(evs),
           'distinct_nontrivial': len(set(digest)),
           'rule': rule or 'one recorded call of the library per trace; distinct by exact content',
           'scenario_classes': run.counts['scenarios'],
           'inconclusive': inconclusive,
           'known_finding_calls': sum(known.values()),
           'outcomes': dict(outcomes),
           'samples': samples or [clip(e) for e in evs[:: max(1, len(evs)//3)][:3]]}
    cov.update(extra or {})
    e = {'property': run.prop, 'tier': run.tier, 'seed': run.seed, 'level': level, 'coverage': cov,
         'wall_s': round(time.time() - run.t0, 2), 'violations': len(bad),
         'assumptions': run.assumptions or ['exact arithmetic overrides agree with the TLA+ definitions (SelfCheck)']}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', run.prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
    if os.environ.get('HV_SHOW'):
        show(evs, bad, verdicts)
    if not bad:
        print('property={} held: {} calls judged, {} states, {} inconclusive, {:.1f} s'.format(
            run.prop, len(evs), run.states, inconclusive, time.time() - run.t0))
        return 0
    rd = os.path.join(VERIF, 'work', 'replay')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, run.prop + '.json')
    with open(path, 'w') as f:
        json.dump([{'clauses': c, 'event': evs[i]} for i, c in bad[:int(os.environ.get('HV_MAX', 20))]], f, indent=1)
    hist = collections.Counter(c for _, cs in bad for c in cs)
    print('{} of {} calls rejected: {}'.format(len(bad), len(evs), dict(hist)))
    print('VIOLATION property={} replay={}'.format(run.prop, path))
    return 1


def clip(e, n=700):
    s = json.dumps(e)
    return e if len(s) <= n else s[:n] + '...'


def show(evs, bad, verdicts):
    groups = collections.defaultdict(list)
    for i, c in bad:
        groups[','.join(c), evs[i].get('sig', evs[i]['t'] + evs[i].get('op', ''))].append(i)
    for (c, s), ii in sorted(groups.items()):
        print('%4d  %-30s %s   e.g. #%d %s' % (len(ii), c, s, ii[0], ' '.join(evs[ii[0]].get('out', {}).get('msg', '').split())
                                               if isinstance(evs[ii[0]].get('out'), dict) else ''))
    inc = collections.Counter(evs[i].get('sig', evs[i]['t']) for i, v in verdicts.items() if any(c[0] == '~' for c in v))
    print('inconclusive:', dict(inc.most_common(10)))
