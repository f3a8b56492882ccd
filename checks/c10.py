"""C10 randomised results are reproducible from the seed alone."""
import json
import random

import numpy as np

from dst import analyses, peer, rngseam, sched
from dst.core import Violation
from seismostats.analysis.bvalue.utils import bootstrap_std
from seismostats.analysis.estimate_mc import estimate_mc_ks, ks_test_gr
from seismostats.utils.simulate_distributions import (
    dither_magnitudes, simulate_magnitudes, simulate_magnitudes_binned)

PROP = 'C10'
LEVEL = 'exploration'
RULE = ('A run seeds the generator and performs a sequence of randomised, '
        'bootstrap and deterministic analyses, in up to three worlds: each '
        'with its own history of (also aborted) calls, operating system '
        'entropy, Python random state, and for some in another process with '
        'another hash seed; non-trivial if random numbers were drawn; '
        'distinct by the whole scenario.')
STATE = '(operation, size of the sample, world)'
COMPONENTS = {
    'real': ['simulations, dithering, goodness of fit and completeness '
             'tests, bootstrap, all deterministic analyses', 'NumPy'],
    'stub': ['entropy of the operating system', 'state of the global '
             'generators', 'history, hash seed and process']}
ASSUMPTIONS = [
    'BMorePositiveBValueEstimator.std draws fresh entropy by design and is '
    'excluded; its bootstrap with a random_state is included.',
    'One machine: results of different NumPy versions are not compared.']
BUDGET = {'quick': dict(runs=6000, wall=60, recheck=25, shrink=60),
          'thorough': dict(runs=500000, wall=1200, recheck=200, shrink=120)}
R_OPS = ['sim', 'sim', 'trunc', 'binned', 'binned', 'dither', 'lillie',
         'ks_gr', 'ks_gr', 'mc_ks', 'mc_ks', 'cat_ks', 'boot', 'boot_more',
         'boot_none', 'boot_big', 'det', 'det', 'det']


def gen_rop(rng, data):
    d = data['d']
    p = dict(r=rng.choice(R_OPS), n=rng.choice([0, 1, 3, 20, 60]),
             b=rng.choice([1.0, .7, round(rng.uniform(.4, 2), 2)]),
             mc=analyses.mag(data['mc'], d), d=d)
    if p['r'] in ('lillie',):
        p['est'] = rng.choice(['classic', 'positive', 'utsu', 'more'])
    elif p['r'] in ('ks_gr', 'mc_ks', 'cat_ks'):
        p.update(n=rng.choice([1, 3, 8]), stop=rng.random() < .5)
    elif p['r'].startswith('boot'):
        p.update(n=rng.choice([1, 2, 5]),
                 size=rng.choice([1, 5, 30, 100, 1000]), state=rng.choice([0, 1, rng.randrange(1 << 30),
                                   rng.randrange(1 << 63)]))
    elif p['r'] == 'det':
        p['op'] = analyses.gen_op(rng, data)
    return p


def gen_history(rng, data):
    h = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        o = gen_rop(rng, data)
        if rng.random() < .3:
            o['fail'] = rng.randint(1, rng.choice([5, 40, 200]))
        h.append(o)
    return h


def gen(rng, tier):
    data = analyses.gen_data(rng, n=rng.choice([3, 8, 20, 40]))
    return dict(
        data=data, seed=rng.choice([0, rng.randrange(1 << 32),
                                    rng.randrange(1 << 32)]),
        ops=[gen_rop(rng, data) for _ in range(rng.randint(1, 4))],
        worlds=[dict(entropy=rng.randrange(1000), py=rng.randrange(1000),
                     history=gen_history(rng, data))
                for _ in range(2)],
        opt_peer=rng.choice([None, None, None, 0, 1, 77]))


def recorder(sample, n):
    """Statistic of a bootstrap which checks its resamples."""
    seen = []
    allowed, same = set(sample.tolist()), sorted(sample.tolist())

    def func(x):
        x = np.asarray(x)
        if x.shape != sample.shape:
            raise Violation('resample-size', f'{x.shape} instead of '
                            f'{sample.shape}')
        if not set(x.tolist()) <= allowed:
            raise Violation('resample-foreign', f'{x} of {sample}')
        if len(allowed) >= 25 and sorted(x.tolist()) == same:
            # chance < 1e-9
            raise Violation('resample-permutation', f'{x} of {sample}')
        seen.append(x.tolist())
        return float(np.mean(x))
    return func, seen


def perform(p, cat, ctx=None):
    """Canonical outcome of a randomised operation."""
    r, m = p['r'], cat['magnitude'].to_numpy(copy=False)
    n = p['n'] or 0
    try:
        if r == 'sim':
            out = simulate_magnitudes(n, p['b'] * 2.302585, p['mc'])
        elif r == 'trunc':
            out = simulate_magnitudes(n, p['b'] * 2.302585, p['mc'],
                                      p['mc'] + 2)
        elif r == 'binned':
            out = simulate_magnitudes_binned(n, p['b'], p['mc'], p['d'])
        elif r == 'dither':
            out = dither_magnitudes(m, p['d'], p['b'])
        elif r == 'lillie':
            e = analyses.B[p['est']]()
            e.calculate(m, p['mc'], p['d'])
            out = e.p_lilliefors(n=2)
        elif r == 'ks_gr':
            out = ks_test_gr(m, p['mc'], p['d'], p['b'], n=n)
        elif r == 'mc_ks':
            out = estimate_mc_ks(m, p['d'], n=n, stop_when_passed=p['stop'])
        elif r == 'cat_ks':
            c = cat.copy()
            out = c.estimate_mc_ks(n=n, stop_when_passed=p['stop']), c.mc
        elif r in ('boot', 'boot_none', 'boot_big'):
            if r == 'boot_big':
                m = np.arange(p['size']) * .5
            func, seen = recorder(m, n)
            s = None if r == 'boot_none' else p['state']
            out = bootstrap_std(m, func, n=n, random_state=s), seen
            if len(seen) != n:
                raise Violation('resample-number', f'{len(seen)} not {n}')
            if r == 'boot_none':
                out = 'done'
        elif r == 'boot_more':
            e = analyses.B['more']()
            e.calculate(m, p['mc'], p['d'])
            out = analyses.bootstrap(e, n, p['state'])
        else:
            return analyses.perform(cat, p['op'], False)
        return ['ok', analyses.canon(out)]
    except Violation:
        raise
    except Exception as e:
        return ['raised', type(e).__name__]


def aborted(p, cat):
    """An operation of a history; failures of any kind are its business."""
    with sched.fail_at(p.get('fail'), RuntimeError):
        try:
            perform({k: v for k, v in p.items() if k != 'fail'}, cat)
        except Violation:
            raise
        except Exception:
            pass


def world(data, w, seed, ops, ctx=None):
    """Results and generator states of ops after the history of a world."""
    ent = rngseam.Entropy(w['entropy'])
    out = []
    with ent, analyses.quiet(analyses.sink()):
        rngseam.ambient(w['py'])
        cat = analyses.catalog(data)
        for p in w['history']:
            aborted(p, cat)
            if ctx and 'fail' in p:
                ctx.fault('aborted call')
        np.random.seed(seed % (1 << 32))
        for k, p in enumerate(ops):
            st, py, cnt = rngseam.state(), random.getstate(), ent.count
            res = perform(p, cat)
            st2 = rngseam.state()
            det = p['r'] == 'det' and p['op']['op'] not in ('mc_ks',) \
                or p['r'].startswith('boot')
            if p['r'] == 'det' and p['op'].get('op') == 'mc_ks':
                det = bool(p['op'].get('ks'))
            if det and st2 != st:
                raise Violation('global-generator-used',
                                f'op {k} {p} changed its state')
            if random.getstate() != py:
                raise Violation('python-random-used', f'op {k} {p}')
            if ent.count != cnt and p['r'] != 'boot_none':
                raise Violation('entropy-used', f'op {k} {p}')
            out.append([res, st2])
            if ctx:
                ctx.state(p['r'], len(data['events']) // 10)
    return out


def remote(data, w, seed, ops):
    return world(data, w, seed, ops)


def differ(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return k, x, y


def run(scn, ctx):
    data, seed, ops = scn['data'], scn['seed'], scn['ops']
    if not scn['worlds']:
        return
    first = world(data, scn['worlds'][0], seed, ops, ctx)
    for w in scn['worlds'][1:]:
        other = json.loads(json.dumps(world(data, w, seed, ops, ctx)))
        d = differ(json.loads(json.dumps(first)), other)
        if d:
            raise Violation('not-reproducible', f'op {d[0]} {ops[d[0]]}: '
                            f'{d[1]} and {d[2]}'[:1500])
    if scn['opt_peer'] is not None:
        other = peer.peer(scn['opt_peer']).call(
            'checks.c10', 'remote', data, scn['worlds'][-1], seed, ops)
        ctx.fault('other process and hash seed')
        d = differ(json.loads(json.dumps(first)), other)
        if d:
            raise Violation('not-reproducible-elsewhere',
                            f'op {d[0]} {ops[d[0]]}: {d[1]} and {d[2]}'[
                                :1500])
    # another seed gives other draws
    second = world(data, scn['worlds'][0], seed + 1, ops)
    drew = False
    np.random.seed(seed % (1 << 32))
    st = rngseam.state()
    for p, (res, after), (res2, after2) in zip(ops, first, second):
        drawn = after != st
        st = after
        if not drawn:
            if p['r'] in ('sim', 'binned') and p['n']:
                raise Violation('seed-ignored', f'{p}: no number drawn')
            continue
        drew = True
        if p['r'] in ('sim', 'trunc', 'dither') and res[0] == 'ok' \
                and res == res2 and (p['n'] or p['r'] == 'dither'):
            raise Violation('seed-ignored', f'{p}: {res} for two seeds')
    for p, (res, _) in zip(ops, first):
        if p['r'] == 'boot' and res[0] == 'ok' and p['n'] \
                and len({e[4] for e in data['events']}) >= 3 \
                and len(data['events']) >= 20:
            alt = perform(dict(p, state=p['state'] + 1),
                          analyses.catalog(data))
            if alt == res:
                raise Violation('random-state-ignored', f'{p}: {res}')
    ctx.log(first, second)
    ctx.steps += len(ops)
    ctx.probe('drew' if drew else 'no draw')
    if drew:
        ctx.nontrivial = repr(scn)
