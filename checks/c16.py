"""C16 concurrent analyses do not disturb each other or their inputs."""
import pickle

import numpy as np
import pandas as pd

from dst import analyses, cats, rngseam, sched
from dst.core import Violation
from seismostats import Catalog
from seismostats import analysis as an
from seismostats.utils import set_option

PROP = 'C16'
LEVEL = 'exploration'
RULE = ('A run lets two to four threads perform analyses of one shared '
        'catalog and its arrays, interleaved line by line by a schedule, '
        'some failing at a chosen line, and compares each with the same '
        'analysis alone on a catalog of its own; non-trivial if threads '
        'were switched within an analysis; distinct by the sequence of '
        'switches with their places and the data.')
STATE = '(analyses running at a switch)'
COMPONENTS = {
    'real': ['all analyses, declustering, QuakeML export, catalog '
             'operations', 'Python threads'],
    'stub': ['thread scheduler (one line of seismostats at a time)',
             'failures at any executed line', 'random stream']}
ASSUMPTIONS = [
    'Switches happen between lines of seismostats, not within NumPy or '
    'pandas.',
    'Functions which draw from the global generator are not part of it: '
    'there is only one stream.']
BUDGET = {'quick': dict(runs=4000, wall=80, recheck=20, shrink=60),
          'thorough': dict(runs=400000, wall=1200, recheck=200, shrink=120)}
EXC = {'memory': MemoryError, 'interrupt': KeyboardInterrupt,
       'runtime': RuntimeError}


def filtered(cat, p, how):
    return cat[cat['magnitude'] >= p['mc']]


def ordered(cat, p, how):
    return cat.sort_values('magnitude', kind='stable')


def stored(cat, p, how):
    return pickle.loads(pickle.dumps(cat))


def joined(cat, p, how):
    return pd.concat([cat, cat.iloc[:2]])


def classes(cat, p, how):
    return [[getattr(c, k, None) for k in (
        '_weights_supported', '__name__')] for c in (
            list(analyses.B.values()) + list(analyses.A.values()))]


def copied(cat, p, how):
    c = cat.copy()
    c['magnitude'] = c['magnitude'] + 1
    c.mc = 7.
    c.bin_magnitudes(p['d'] or .1, inplace=True)
    return c


def fromdict(cat, p, how):
    return Catalog.from_dict([
        dict(time=t, magnitude=m, longitude=1., latitude=2., depth=3.)
        for t, m in zip(cat['time'][:5], cat['magnitude'][:5])],
        include_ids=False)


def watch(cat, p, how):
    return repr(cats.snapshot(cat))


OWN = {f.__name__: f for f in (
    filtered, ordered, stored, joined, copied, fromdict, watch, classes)}
SHARED_GK = {}


def shared_gk(cat, p, how):
    return SHARED_GK[p['window']](cat)


OWN['shared_gk'] = shared_gk


def gen_op(rng, data):
    if rng.random() < .25:
        return dict(op=rng.choice(list(OWN) + ['shared_gk'] * 3),
                    how='array',
                    mc=analyses.mag(data['mc'], data['d']), d=data['d'],
                    window=rng.choice(list(analyses.WINDOW)))
    return analyses.gen_op(rng, data, [
        n for n in analyses.ALL if n not in ('coords', 'weichert')])


def gen(rng, tier):
    data = analyses.gen_data(rng, n=rng.choice([1, 3, 8, 20, 30]))
    n = rng.choice([2, 2, 2, 3, 4])
    first = gen_op(rng, data)
    tasks = []
    # the same kind of analysis as another thread
    alike = rng.choice([.3, .3, .3, 1])
    for _ in range(n):
        ops = [gen_op(rng, data) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < alike:
            ops[0] = {**ops[0], **first} if rng.random() < .5 else \
                gen_same(rng, data, first)
        tasks.append(ops)
    if rng.random() < .3:
        tasks[-1] = [dict(op='watch', how='array')] * 4
    scn = dict(data=data, tasks=tasks, schedule=sched.gen_schedule(
        rng, n, 20, rng.choice([20, 100, 400])))
    if rng.random() < .25:
        scn['fails'] = [[rng.randrange(n), rng.randint(1, rng.choice(
            [8, 40, 200])), rng.choice(list(EXC))]
            for _ in range(rng.choice([1, 1, 2]))]
    return scn


def gen_same(rng, data, first):
    if first['op'] in OWN:
        return {**gen_op(rng, data), **first, 'window': rng.choice(
            list(analyses.WINDOW))}
    return analyses.gen_op(rng, data, [first['op']])


def perform(cat, o):
    if o['op'] in OWN:
        try:
            return ['ok', analyses.canon(OWN[o['op']](cat, o, o['how']))]
        except Exception as e:
            return ['raised', type(e).__name__, str(e)]
    return analyses.perform(cat, o)


def run(scn, ctx):
    set_option('warnings', False)
    SHARED_GK.clear()
    SHARED_GK.update({k: an.GardnerKnopoffType1(time_distance_window=w(None))
                      for k, w in analyses.WINDOW.items()})
    with np.errstate(all='ignore'), analyses.quiet(analyses.sink()), \
            rngseam.Entropy(1):
        rngseam.ambient(1)
        _run(scn, ctx)


def _run(scn, ctx):
    ref = [[perform(analyses.catalog(scn['data']), o) for o in ops]
           for ops in scn['tasks']]
    cat = analyses.catalog(scn['data'])
    snap = cats.snapshot(cat)
    doing = [None] * len(ref)
    hit = set()
    s = None

    def task(k):
        def go():
            out = []
            for o in scn['tasks'][k]:
                doing[k] = o['op']
                fired = len(s.fired)
                try:
                    if o['op'] == 'watch':
                        s.point()
                    out.append(perform(cat, o))
                except BaseException as e:
                    if isinstance(e, sched._Killed):
                        raise
                    out.append(['injected', type(e).__name__])
                if any(t == k for t, _ in s.fired[fired:]):
                    hit.add((k, len(out) - 1))
                s.rearm()
            return out
        return go

    fails = {}
    for t, k, e in scn.get('fails', []):
        fails.setdefault(t % len(ref), []).append([k, EXC[e]])
    s = sched.Scheduler([task(k) for k in range(len(ref))], scn['schedule'],
                        fails=fails)
    real = s._switch

    def noted(me, to, why):
        if me != to:
            ctx.state(doing[me], doing[to], why)
        return real(me, to, why)

    s._switch = noted
    res = s.run()
    if s.fired:
        ctx.fault('failure in a thread', len(s.fired))
    pre = [x for x in s.switches if x[3] == 'preempt']
    if pre:
        ctx.fault('preemption', len(pre))
        ctx.probe('interleaved')
    ctx.log(s.switches, s.fired, [r[0] for r in res])
    if cats.snapshot(cat) != snap:
        raise Violation('input-changed', str(cats.snap_diff(
            snap, cats.snapshot(cat))))
    for k, r in enumerate(res):
        if r[0] != 'ok':
            raise r[1]
        for i, (o, got, want) in enumerate(zip(scn['tasks'][k], r[1],
                                               ref[k])):
            ctx.log(k, o['op'], got)
            if got == want or (k, i) in hit:
                continue
            raise Violation('disturbed', f'{o} in thread {k}: {got} instead '
                            f'of {want}'[:1500])
    ctx.steps += sum(s.steps)
    if pre:
        ctx.nontrivial = repr((s.switches, scn['data'], scn['tasks']))
