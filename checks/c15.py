"""C15 the warnings option changes warnings only, never results."""
import os
import sys
import warnings

import numpy as np

from dst import analyses, cats, rngseam, sched
from dst.core import Violation
from seismostats import analysis as an
from seismostats.analysis.estimate_mc import ks_test_gr
from seismostats.utils import get_option, set_option
from seismostats.utils.simulate_distributions import \
    simulate_magnitudes_binned

PROP = 'C15'
LEVEL = 'exploration'
RULE = ('A run performs one to four analyses with the option on, then again '
        'in a history of switched, odd and unknown options, failing lines, '
        'switches during a call and in a thread of their own, and compares '
        'results, errors, state and warnings; non-trivial if an analysis '
        'ran with the option not on throughout; distinct by the whole '
        'scenario.')
STATE = '(analysis, outcome, how the option was, governed warnings)'
COMPONENTS = {
    'real': ['set_option, get_option', 'all analyses', 'threads, '
             'interleaved at chosen lines'],
    'stub': ['thread scheduler', 'failures at any executed line',
             'random stream']}
ASSUMPTIONS = [
    'Governed are the UserWarnings issued from the code of seismostats; '
    'warnings of NumPy and others are not.']
BUDGET = {'quick': dict(runs=3000, wall=80, recheck=25, shrink=60),
          'thorough': dict(runs=400000, wall=1200, recheck=200, shrink=120)}
EXC = {'memory': MemoryError, 'interrupt': KeyboardInterrupt,
       'runtime': RuntimeError}
VALUES = [False, False, True, True, None, 0, 1, 'off']


def reuse(objs, cat, p, how):
    """A calculation on an object that was used before."""
    f = p['f']
    key = (f, p['method'])
    e = objs.setdefault(key, {'b': analyses.B, 'a': analyses.A}[f][
        p['method']]())
    kw = {}
    if p['method'] != 'classic' and p['method'] != 'utsu':
        kw = dict(times=analyses.col(cat, 'time', how), dmc=p['dmc'])
    if f == 'a':
        kw['b_value'] = 1.
    e.calculate(analyses.col(cat, 'magnitude', how), p['mc'], p['d'], **kw)
    return analyses.est_state(e)


def ks_rand(cat, p, how):
    return ks_test_gr(analyses.col(cat, 'magnitude', how), p['mc'], p['d'],
                      p['b'], n=p['n'])


def mc_rand(cat, p, how):
    return an.estimate_mc_ks(
        np.array(cat['magnitude']), p['d'], p_value_pass=p['pass'],
        mcs_test=p['mcs'], n=p['n'], stop_when_passed=p['stop'])


def boot(cat, p, how):
    e = an.BMorePositiveBValueEstimator()
    e.calculate(cat['magnitude'], p['mc'], p['d'])
    return e.b_value, analyses.bootstrap(e, p['n'], p['seed'])


def draw(cat, p, how):
    return simulate_magnitudes_binned(p['n'], p['b'], p['mc'], p['d'])


OWN = {f.__name__: f for f in (ks_rand, mc_rand, boot, draw)}


def gen_op(rng, data):
    if rng.random() < .75:
        o = analyses.gen_op(rng, data)
        if rng.random() < .3 and 'dmc' in o:
            o['dmc'] = data['d'] / 2
        if rng.random() < .15 and o['op'] not in ('mc_stab', 'cat_stab'):
            # a mc which leaves nothing or is not binned
            o['mc'] = rng.choice([o['mc'] + 9, o['mc'] + .0371])
        return o
    d = data['d']
    mc = analyses.mag(data['mc'] + rng.choice([0, 1, 500]), d)
    o = dict(op=rng.choice(list(OWN) + ['reuse', 'reuse']), how='array',
             mc=mc, d=d, n=rng.choice([1, 3, 8]), b=rng.choice([1., .7]),
             stop=rng.random() < .5, seed=rng.randrange(100),
             f=rng.choice('ab'), dmc=rng.choice([None, d, d / 2]),
             mcs=[mc, analyses.mag(data['mc'] + 2, d)])
    o['method'] = rng.choice(['classic', 'positive', 'more'])
    o['pass'] = rng.choice([.1, .9])
    return o


def gen(rng, tier):
    data = analyses.gen_data(rng)
    ops = [gen_op(rng, data) for _ in range(rng.randint(1, 4))]
    n = len(ops)
    script = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        k = rng.randrange(n)
        if r < .25:
            script.append(['set', rng.choice(VALUES)])
        elif r < .65:
            script.append(['do', k])
        elif r < .75:
            script.append(['flip', k, sorted(
                rng.randint(1, rng.choice([6, 30, 150]))
                for _ in range(rng.randint(1, 6)))])
        elif r < .85:
            script.append(['fail', k, rng.randint(1, rng.choice([6, 40])),
                           rng.choice(list(EXC))])
        elif r < .92:
            script.append(['strict', k])
        else:
            script.append(['unknown', rng.choice(
                ['warning', 'Warnings', '', 'warnings ', 'x'])])
    scn = dict(data=data, ops=ops, script=script)
    if rng.random() < .3:
        scn['threads'] = sched.gen_schedule(rng, 2, 16, 200)
        scn['values'] = [rng.choice(VALUES) for _ in range(10)]
    return scn


class flip_at:
    """Switch the option at the given lines of the code under test."""

    def __init__(self, lines):
        self.lines, self.count, self.flips = set(lines), 0, 0

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(sched._SUT):
            return None
        if frame.f_code.co_filename.endswith('_config.py'):
            return None

        def local(frame, event, arg):
            if event == 'line':
                self.count += 1
                if self.count in self.lines:
                    self.flips += 1
                    set_option('warnings', not get_option('warnings'))
            return local
        return local

    def __enter__(self):
        sys.settrace(self._tracer)
        return self

    def __exit__(self, *_):
        sys.settrace(None)


def perform(cat, o, objs):
    how = o['how']
    try:
        if o['op'] == 'reuse':
            return ['ok', analyses.canon(reuse(objs, cat, o, how))]
        if o['op'] in OWN:
            return ['ok', analyses.canon(OWN[o['op']](cat, o, how))]
    except Exception as e:
        return ['raised', type(e).__name__, str(e)]
    return analyses.perform(cat, o)


def governed(w):
    return [str(x.message) for x in w if issubclass(x.category, UserWarning)
            and os.path.abspath(x.filename).startswith(sched._SUT)]


def one(cat, o, objs, strict=False):
    """(outcome, state of the generator, governed warnings)"""
    rngseam.ambient(o.get('seed', 1))
    with rngseam.Entropy(o.get('seed', 1)), \
            warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if strict:
            warnings.simplefilter('error', UserWarning)
        with np.errstate(all='warn'), analyses.quiet(analyses.sink()):
            out = perform(cat, o, objs)
    return out, rngseam.state(), governed(w)


def run(scn, ctx):
    set_option('warnings', True)
    try:
        _run(scn, ctx)
    finally:
        set_option('warnings', True)


def _run(scn, ctx):
    cat = analyses.catalog(scn['data'])
    snap = cats.snapshot(cat)
    ref = [one(cat, o, {}) for o in scn['ops']]
    for o, r in zip(scn['ops'], ref):
        if get_option('warnings') is not True:
            raise Violation('option-changed', f'{o} left the option '
                            f'{get_option("warnings")!r}')
        ctx.log(o['op'], r)
    objs = {}
    seen = False

    def judge(k, got, how, strict=False):
        nonlocal seen
        o, r = scn['ops'][k], ref[k]
        value = get_option('warnings')
        if got[0] != r[0]:
            raise Violation('result', f'{o} with the option {how}: {got[0]} '
                            f'instead of {r[0]}'[:1500])
        if got[1] != r[1]:
            raise Violation('randomness', f'{o} with the option {how} left '
                            'the generator in another state')
        if how == 'switched':
            left = list(r[2])
            for m in got[2]:
                if m not in left:
                    raise Violation('warnings', f'{o} {how}: {got[2]} but '
                                    f'{r[2]} with the option on')
                left.remove(m)
        elif value is True:
            if got[2] != r[2]:
                raise Violation('warnings', f'{o}: {got[2]} but {r[2]} '
                                'before, with the option on')
        elif got[2]:
            raise Violation('warnings', f'{o} with the option {value!r}: '
                            f'{got[2]}')
        if value is not True or how == 'switched':
            seen = True
            ctx.probe('option not on')
            if r[2]:
                ctx.probe('suppressed warnings')
        ctx.state(o['op'], got[0][0], how, repr(value), len(r[2]))

    for a in scn['script']:
        before = get_option('warnings')
        if a[0] == 'set':
            set_option('warnings', a[1])
            before = a[1]
        elif a[0] == 'unknown':
            try:
                set_option(a[1], False)
            except KeyError:
                ctx.fault('unknown option')
            else:
                raise Violation('unknown', f'set_option({a[1]!r}) accepted')
            try:
                get_option(a[1])
            except KeyError:
                pass
            else:
                raise Violation('unknown', f'get_option({a[1]!r}) accepted')
        elif a[1] % len(ref) != a[1]:
            continue
        elif a[0] == 'do':
            judge(a[1], one(cat, scn['ops'][a[1]], objs), repr(before))
        elif a[0] == 'strict':
            if before is True and ref[a[1]][2]:
                continue
            ctx.fault('warnings as errors')
            judge(a[1], one(cat, scn['ops'][a[1]], objs, True),
                  repr(before))
        elif a[0] == 'flip':
            with flip_at(a[2]) as f:
                got = one(cat, scn['ops'][a[1]], objs)
            if f.flips:
                ctx.fault('option switched during a call')
            set_option('warnings', before if f.flips % 2 == 0 else
                       get_option('warnings'))
            judge(a[1], got, 'switched' if f.flips else repr(before))
            set_option('warnings', before)
        elif a[0] == 'fail':
            o = scn['ops'][a[1]]
            with sched.fail_at(a[2], EXC[a[3]]) as f:
                try:
                    one(cat, o, objs)
                except BaseException as e:
                    if not isinstance(e, EXC[a[3]]):
                        raise
            if f.fired:
                ctx.fault(f'{EXC[a[3]].__name__} in a call')
        now = get_option('warnings')
        if now is not before and now != before or type(now) is not \
                type(before):
            raise Violation('option-changed', f'{a}: the option was '
                            f'{before!r} and is {now!r}')
    if 'threads' in scn:
        def work():
            return [one_in_thread(cat, o) for o in scn['ops']]

        def switch():
            for v in scn['values']:
                set_option('warnings', v)

        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            with np.errstate(all='warn'), \
                    analyses.quiet(analyses.sink()), rngseam.Entropy(1):
                s = sched.Scheduler([work, switch], scn['threads'])
                res = s.run()
        ctx.fault('option switched by a thread', len(s.switches))
        if res[1][0] == 'raised':
            raise res[1][1]
        if res[0][0] == 'raised':
            raise res[0][1]
        for k, out in enumerate(res[0][1]):
            judge(k, (out[0], out[1], []), 'switched')
        allowed = sum((r[2] for r in ref), [])
        for m in governed(w):
            if m not in allowed:
                raise Violation('warnings', f'switched by a thread: {m}')
            allowed.remove(m)
    if cats.snapshot(cat) != snap:
        raise Violation('input-changed', str(cats.snap_diff(
            snap, cats.snapshot(cat))))
    ctx.steps += len(scn['script'])
    if seen:
        ctx.nontrivial = repr(scn)


def one_in_thread(cat, o):
    rngseam.ambient(o.get('seed', 1))
    return perform(cat, o, {}), rngseam.state()
