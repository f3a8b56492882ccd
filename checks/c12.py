"""C12 estimators can be reused, also after a failed calculation."""
import copy
import pickle

import numpy as np

from dst import analyses, rngseam, sched
from dst.core import Violation
from seismostats import analysis as an

PROP = 'C12'
LEVEL = 'exploration'
RULE = ('A run performs up to eight operations on one estimator object '
        '(calculations with valid and invalid inputs, of which some are '
        'aborted at a chosen line, reading of results, changes of the '
        'arrays it was given, storing) and compares the object after each '
        'with a new one; non-trivial if a calculation follows another one '
        'or fails; distinct by the whole scenario.')
STATE = '(estimator, operation, failed at, state of the object afterwards)'
COMPONENTS = {
    'real': ['all a- and b-value estimators', 'NumPy', 'pickle'],
    'stub': ['failures at any executed line of the estimators', 'random '
             'stream of the goodness of fit test']}
ASSUMPTIONS = [
    'Failures occur between two source lines of SeismoStats.']
BUDGET = {'quick': dict(runs=12000, wall=60, recheck=25, shrink=60),
          'thorough': dict(runs=800000, wall=1200, recheck=200, shrink=120)}
EXC = {'memory': MemoryError, 'interrupt': KeyboardInterrupt,
       'runtime': RuntimeError}
RESULTS = {'b': ['value', 'b_value', 'beta', 'n', 'std', 'std_beta'],
           'a': ['value', 'a_value', 'n']}


def gen_calc(rng, est, n_data):
    o = dict(op='calc', data=rng.randrange(n_data), mc=rng.choice(
        [0, 0, 0, 1, 3, -2, 100]), how=rng.choice(['array', 'list',
                                                   'series']))
    if rng.random() < .35:
        o['weights'] = rng.choice(['col', 'col', 'col', 'neg', 'short'])
    if rng.random() < .6:
        o['times'] = rng.choice(['col', 'col', 'col', 'short'])
    o['dmc'] = rng.choice([None, None, 1, 2, 0, -1, .5])
    if est[0] == 'a':
        o.update(scale=rng.choice([None, 2., 10]),
                 m_ref=rng.choice([None, None, 1.]),
                 b=rng.choice([1., .8, None]))
    if rng.random() < .2:
        o['d'] = rng.choice([.3, 0, 0, 0])      # 0: not binned
    if rng.random() < .35:
        o['fail'] = rng.randint(1, rng.choice([6, 20, 60]))
        o['exc'] = rng.choice(list(EXC))
    return o


def gen(rng, tier):
    est = rng.choice([['b', 'classic'], ['b', 'utsu'], ['b', 'positive'],
                      ['b', 'positive'], ['b', 'more'], ['b', 'more'],
                      ['a', 'classic'], ['a', 'positive'], ['a', 'positive'],
                      ['a', 'more'], ['a', 'more']])
    n = rng.randint(1, 3)
    data = [analyses.gen_data(rng, n=rng.choice([0, 1, 2, 3, 8, 20]),
                              nan=rng.random() < .15) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < .65:
            ops.append(gen_calc(rng, est, n))
            if rng.random() < .2:
                # the function instead of the object
                ops[-1].update(op='func', par=rng.choice(
                    ['b_value', 'b_value', 'beta']), n=rng.random() < .5,
                    std=rng.random() < .5)
            elif rng.random() < .2:
                ops.append(dict(op='test', seed=rng.randrange(1000)))
        elif r < .68:
            ops.append(dict(op='periods', data=rng.randrange(n), f=rng.choice(
                ['kijko'] * 4 + ['weichert']), above=rng.choice([-1, 0])))
        else:
            o = dict(op=rng.choice(['read', 'read', 'test', 'test', 'spoil',
                                    'pickle', 'copy', 'boot']),
                     seed=rng.randrange(1000))
            if rng.random() < .3:
                o['fail'] = rng.randint(1, rng.choice([4, 20, 80]))
                o['exc'] = rng.choice(list(EXC))
            ops.append(o)
    if est == ['b', 'more'] and rng.random() < .06:
        # the bootstrap of the property takes long
        for _ in range(2):
            ops.insert(rng.randint(1, len(ops)), dict(
                op='std', seed=rng.randrange(1000), beta=rng.random() < .3))
    return dict(est=est, data=data, ops=ops)


def make(est):
    return (analyses.B if est[0] == 'b' else analyses.A)[est[1]]()


def prepare_call(est, o, data):
    """Arguments of a calculation, the arrays that are handed over."""
    cat = analyses.columns(data)
    d = o.get('d', data['d'])
    kw = dict(mc=analyses.mag(data['mc'] + o['mc'], data['d']), delta_m=d)
    arrays = {'magnitudes': analyses.col(cat, 'magnitude', o['how'])}
    if est[0] == 'b' and o.get('weights'):
        w = cat['weight'].to_numpy().copy()
        if o['weights'] == 'neg' and len(w):
            w[-1] = -1
        elif o['weights'] == 'short':
            w = w[:-1]
        arrays['weights'] = w if o['how'] != 'list' else list(w)
    if est[1] in ('positive', 'more'):
        if o.get('times') or est[0] == 'a':
            t = cat['time'].to_numpy().copy()
            if o.get('times') == 'short':
                t = t[:-1]
            arrays['times'] = t
        kw['dmc'] = None if o.get('dmc') is None else o['dmc'] * data['d']
    if est[0] == 'a':
        kw.update(scaling_factor=o.get('scale'), m_ref=o.get('m_ref'),
                  b_value=o.get('b'))
    return arrays, kw


def calculate(e, arrays, kw, fail=None, exc=RuntimeError):
    with np.errstate(all='ignore'), sched.fail_at(fail, exc) as f:
        try:
            out = ['ok', analyses.canon(e.calculate(**arrays, **kw))]
        except BaseException as x:
            out = ['raised', type(x).__name__, str(x)]
    return out, f


def state(e):
    with np.errstate(all='ignore'):
        return analyses.est_state(e)


def results(e, kind):
    """What the results say: 'refused' or values."""
    out = {}
    with np.errstate(all='ignore'):
        for k in RESULTS[kind]:
            if k.startswith('std') and isinstance(
                    e, analyses.B['more']):
                st = _refuses(e)
                out[k] = 'refused' if st else 'given'
                continue
            try:
                out[k] = analyses.canon(getattr(e, k))
            except AttributeError as x:
                if 'Please calculate' not in str(x):
                    raise Violation('read-error', f'{k}: {x!r}')
                out[k] = 'refused'
            except Exception as x:
                out[k] = ['raised', type(x).__name__]
    return out


def _refuses(e):
    try:
        with sched.fail_at(12, RuntimeError):
            e.std
    except AttributeError as x:
        return 'Please calculate' in str(x)
    except Exception:
        pass
    return False


def raw(x):
    return {k: (type(v).__name__, repr(list(v))) for k, v in x.items()}


def run(scn, ctx):
    est = scn['est']
    kind = est[0]
    e = make(est)
    last = None             # state after the last successful calculation
    call = None             # that calculation
    given = None
    n_calc = n_fail = 0
    for k, o in enumerate(scn['ops']):
        where = f'op {k} {o["op"]}'
        exc = EXC.get(o.get('exc'), RuntimeError)
        if o['op'] == 'calc':
            if o['data'] >= len(scn['data']):
                continue
            data = scn['data'][o['data']]
            arrays, kw = prepare_call(est, o, data)
            before = raw(arrays)
            out, f = calculate(e, arrays, kw, o.get('fail'), exc)
            if raw(arrays) != before:
                raise Violation('input-changed', f'{where}: {arrays}')
            given = arrays
            new = make(est)
            arrays2, kw2 = prepare_call(est, o, data)
            ref, _ = calculate(new, arrays2, kw2)
            if f.fired:
                ctx.fault(f'{exc.__name__} in a calculation')
            n_calc += 1
            ctx.log(k, out, f.fired)
            if out[0] == 'ok':
                if out != ref:
                    raise Violation('result', f'{where}: {out} instead of '
                                    f'{ref} on a new object')
                a, b = state(e), state(new)
                compare(a, b, where, 'state')
                if e.value == e.value:
                    same_events(e, est, arrays, where)
                last, call = a, o
                ctx.state(est, 'ok')
                continue
            if not f.fired and out != ref:
                raise Violation('error', f'{where}: {out} instead of {ref} '
                                f'on a new object')
            n_fail += 1
            r = results(e, kind)
            ref_vals = {str(v) for v in r.values()}
            if ref_vals == {'refused'}:
                last = None
                ctx.state(est, f.fired, 'refuses')
                continue
            if 'refused' in ref_vals:
                raise Violation('partly-refused', f'{where} {out}: {r}')
            a = state(e)
            ctx.state(est, f.fired, 'reports')
            if last is not None and a == last:
                continue
            if ref[0] == 'ok' and f.fired and a == state(new):
                last, call = a, o
                continue
            raise Violation('mixed-results', f'{where} {out} at {f.fired}: '
                            f'{a}, last successful {last}')
        elif o['op'] == 'spoil':
            # the caller goes on to use its arrays
            if given is None:
                continue
            for v in given.values():
                if isinstance(v, list):
                    for j in range(len(v)):
                        v[j] = 7.7
                elif len(v):
                    w = v if isinstance(v, np.ndarray) else v.to_numpy()
                    if w.flags.writeable:
                        w[:] = w[::-1].copy()
                        w[:1] = w[-1:]
            ctx.fault('arrays of the caller changed')
        elif o['op'] == 'func':
            if o['data'] < len(scn['data']):
                same_as_function(est, o, scn['data'][o['data']], where, ctx)
        elif o['op'] == 'periods':
            if o['data'] < len(scn['data']):
                same_parameter(o, scn['data'][o['data']], where)
        elif o['op'] == 'std':
            if last is not None:
                same_std(e, est, o, call, scn['data'][call['data']], where)
        elif o['op'] == 'pickle':
            e = pickle.loads(pickle.dumps(e))
            ctx.fault('stored and restored')
        elif o['op'] == 'copy':
            e = copy.deepcopy(e)
        else:
            got = read(e, o, kind, o.get('fail'), exc)
            if got[1]:
                ctx.fault(f'{exc.__name__} while reading')
            ctx.log(k, got)
            if last is None:
                if got[0] == 'ok' \
                        and n_calc == 0:
                    raise Violation('read-before', f'{where}: {got}')
            elif not got[1]:
                # a new object in the same state would say the same
                again = read(e, o, kind, None, exc)
                if again != got:
                    raise Violation('read-changes', f'{where}: {got}, then '
                                    f'{again}')
        if last is not None:
            compare(state(e), last, where, 'kept')
        elif n_calc:
            r = results(e, kind)
            if {str(v) for v in r.values()} != {'refused'}:
                raise Violation('revived', f'{where}: {r}')
    # the object still works, whatever happened
    final(e, scn, est, ctx)
    ctx.steps += len(scn['ops'])
    if n_calc > 1 or n_fail:
        ctx.nontrivial = repr(scn)


def same_events(e, est, arrays, where):
    """What is reported per event is about the events that were used."""
    idx = np.asarray(e.idx)
    for k, v in arrays.items():
        have = getattr(e, k)
        if have is None:
            continue
        have = np.asarray(have)
        if len(have) != len(idx):
            raise Violation('events', f'{where}: {len(have)} {k}, '
                            f'{len(idx)} events')
        if k == 'magnitudes' and est[0] == 'b' and est[1] in (
                'positive', 'more'):
            continue    # differences
        want = np.asarray(v)[idx.astype(int)]
        if not np.array_equal(have, want):
            raise Violation('events', f'{where}: {k} {have} instead of '
                            f'{want} for {idx}')


def same_std(e, est, o, call, data, where):
    """The bootstrap is that of the last calculation."""
    new = make(est)
    calculate(new, *prepare_call(est, call, data))
    got = []
    for x in (e, new):
        rngseam.ambient(o['seed'])
        with rngseam.Entropy(o['seed']), np.errstate(all='ignore'):
            try:
                got.append(['ok', analyses.canon(
                    x.std_beta if o['beta'] else x.std)])
            except Exception as ex:
                got.append(['raised', type(ex).__name__, str(ex)])
    if got[0] != got[1]:
        raise Violation('std', f'{where}: {got[0]} instead of {got[1]} of a '
                        'new object')


def same_as_function(est, o, data, where, ctx):
    """estimate_a and estimate_b report what a new object does."""
    arrays, kw = prepare_call(est, o, data)
    new = make(est)
    ref, _ = calculate(new, *prepare_call(est, o, data))
    more = est[1] == 'more'
    with np.errstate(all='ignore'), sched.fail_at(
            o.get('fail'), EXC.get(o.get('exc'), RuntimeError)) as f:
        try:
            if est[0] == 'b':
                got = an.estimate_b(
                    **arrays, **kw, b_parameter=o['par'],
                    return_std=o['std'] and not more, return_n=o['n'],
                    method=type(new))
            else:
                got = an.estimate_a(**arrays, **kw, method=type(new))
        except BaseException as x:
            got = ['raised', type(x).__name__, str(x)]
    if f.fired:
        ctx.fault('failure in a function')
        return
    def reported():
        yield new.value if est[0] == 'a' else getattr(new, o['par'])
        if est[0] == 'b' and o['std'] and not more:
            yield new.std_beta if o['par'] == 'beta' else new.std
        if est[0] == 'b' and o['n']:
            yield new.n

    want = ref
    if ref[0] == 'ok':
        try:
            with np.errstate(all='ignore'):
                want = tuple(reported())
            want = analyses.canon(want if len(want) > 1 else want[0])
            got = analyses.canon(got)
        except Exception as x:
            want = ['raised', type(x).__name__, str(x)]
    if got != want:
        raise Violation('function', f'{where} {o}: {got} instead of {want}')


def same_parameter(o, data, where):
    """beta is b * ln 10, nothing else differs."""
    cat = analyses.columns(data)
    out = []
    for par in ('b_value', 'beta'):
        p = dict(op=o['f'], how='array', mc=analyses.mag(
            data['mc'], data['d']), d=data['d'], par=par, above=o['above'])
        with analyses.quiet(analyses.sink()), np.errstate(all='ignore'):
            try:
                out.append(['ok'] + list(analyses.ALL[o['f']](
                    cat, p, 'array')))
            except Exception as x:
                out.append(['raised', type(x).__name__, str(x)])
    b, beta = out
    if b[0] == 'ok' == beta[0]:
        b[1:3] = [v * np.log(10) for v in b[1:3]]
        b, beta = b[1:], beta[1:]
        if len(b) == len(beta) and np.allclose(
                np.array(b, float), np.array(beta, float), 1e-9, 0, True):
            return
    if b != beta:
        raise Violation('beta', f'{where} {o}: {beta} instead of {b}')


def final(e, scn, est, ctx):
    for data in scn['data'][:1]:
        o = dict(op='calc', data=0, mc=0, how='array', dmc=None)
        arrays, kw = prepare_call(est, o, data)
        out, _ = calculate(e, arrays, kw)
        new = make(est)
        ref, _ = calculate(new, *prepare_call(est, o, data))
        if out != ref:
            raise Violation('result', f'after all: {out} instead of {ref}')
        if out[0] == 'ok':
            compare(state(e), state(new), 'after all', 'state')
            for op in ('test', 'boot'):
                o2 = dict(op=op, seed=5)
                a = read(e, o2, est[0], None, RuntimeError)
                b = read(new, o2, est[0], None, RuntimeError)
                if a != b:
                    raise Violation('read', f'{op}: {a} instead of {b}')
            ctx.log(out, a)


def read(e, o, kind, fail, exc):
    if kind == 'a' and o['op'] != 'read':
        return ['n/a', False]
    rngseam.ambient(o.get('seed', 0))
    with np.errstate(all='ignore'), sched.fail_at(fail, exc) as f:
        try:
            if o['op'] == 'read':
                out = ['ok', [analyses.canon(getattr(e, x))
                              for x in RESULTS[kind]
                              if not x.startswith('std')]]
            elif o['op'] == 'test':
                out = ['ok', analyses.canon(e.p_lilliefors(n=2))]
            elif hasattr(e, '_std_bootstrap'):
                out = ['ok', analyses.canon(analyses.bootstrap(
                    e, 2, o.get('seed', 0)))]
            else:
                out = ['n/a', None]
        except AttributeError as x:
            out = ['refused', str(x)]
        except BaseException as x:
            out = ['raised', type(x).__name__, str(x)]
    if f.fired:
        return ['aborted', True]
    return [out[0], False, out[1:]]


def compare(a, b, where, kind):
    if a != b:
        raise Violation(kind, f'{where}: ' + ', '.join(
            f'{x}: {a.get(x)} instead of {b.get(x)}'
            for x in b if a.get(x) != b.get(x))[:1200])
