"""C14 estimates on a catalog are published exactly when they succeed."""
import numpy as np

from dst import analyses, cats, rngseam, sched
from dst.core import Violation
from seismostats import Catalog, ForecastCatalog
from seismostats import analysis as an

PROP = 'C14'
LEVEL = 'exploration'
RULE = ('A run performs up to eight estimates and changes on one catalog, '
        'some of which are invalid or aborted at a chosen line, and compares '
        'each with the function called with the resolved arguments, and the '
        'catalog with what it should have become; non-trivial if an estimate '
        'was published or refused; distinct by the whole scenario.')
STATE = '(estimate, arguments taken from, outcome, failed at)'
COMPONENTS = {
    'real': ['Catalog.estimate_*', 'estimators and completeness estimates'],
    'stub': ['failures at any executed line', 'random stream']}
ASSUMPTIONS = [
    'The functions and estimators themselves (with explicit arguments) are '
    'taken as they are; C11 and C12 are about them.']
BUDGET = {'quick': dict(runs=9000, wall=75, recheck=25, shrink=60),
          'thorough': dict(runs=500000, wall=1200, recheck=200, shrink=120)}
EXC = {'memory': MemoryError, 'interrupt': KeyboardInterrupt,
       'runtime': RuntimeError}
ATTR = {'maxc': 'mc', 'stab': 'mc', 'ks': 'mc', 'b': 'b_value',
        'a': 'a_value'}


def gen_op(rng, data):
    d, k = data['d'], data['mc']
    r = rng.random
    if r() < .25:
        o = dict(op=rng.choice(['meta', 'meta', 'drop', 'unbin', 'filter',
                                'add', 'weight']),
                 key=rng.choice(['mc', 'delta_m', 'b_value', 'a_value']),
                 v=rng.choice([None, None, analyses.mag(k, d), d, 1.]),
                 col=rng.choice(['weight', 'time', 'time', 'magnitude']),
                 x=rng.randrange(5))
        if o['key'] == 'delta_m' and o['v'] is not None:
            o['v'] = rng.choice([d, d, 2 * d, .3])
        return o
    o = dict(op=rng.choice(['maxc', 'stab', 'ks', 'b', 'b', 'b', 'a', 'a']))
    if r() < .4:
        o['d'] = rng.choice([d, d, d, 2 * d, d / 3])
    if r() < .4:
        o['mc'] = analyses.mag(k + rng.choice([0, 1, 2, -1, 200]), d)
        if r() < .15:
            o['mc'] = 0.0
    if o['op'] == 'maxc':
        o.update(bin=rng.choice([d, .1, .5]), corr=rng.choice([.2, 0., .1]))
    elif o['op'] in ('stab', 'ks'):
        o.update(mcs=rng.choice([None, [analyses.mag(k + i, d)
                                        for i in range(4)]]),
                 stop=r() < .5, method=rng.choice(
                     ['classic', 'classic', 'utsu', 'positive']),
                 kw=rng.choice([None, None, 'times', 'weights', 'both']),
                 verbose=r() < .1, range=rng.choice([.5, 2 * d, 1.]),
                 b=rng.choice([None, None, 1.0, .8]),
                 seed=rng.randrange(1000), lists=r() < .5)
        o['pass'] = rng.choice([.1, .5, 0., 1.])
        if o['mcs'] is None or d < .05:  # would take minutes
            o['range'] = min(o['range'], 5 * d)
            if o.get('d', d) < d:
                o['d'] = d
    elif o['op'] == 'b':
        o.update(method=rng.choice(list(analyses.B)),
                 weights=rng.choice([None, None, 'own', 'neg', 'ones']),
                 times=rng.choice([None, None, 'reversed']),
                 dmc=rng.choice([None, None, d, 2 * d, -d]))
    else:
        o.update(method=rng.choice(list(analyses.A)),
                 scale=rng.choice([None, 2., 10]),
                 m_ref=rng.choice([None, 0., 2.]),
                 b=rng.choice([None, 1., .8]),
                 times=rng.choice([None, None, 'reversed']),
                 dmc=rng.choice([None, None, d, 2 * d, -d]))
    if r() < .3:
        o['fail'] = rng.randint(1, rng.choice([5, 20, 60, 300]))
        o['exc'] = rng.choice(list(EXC))
    return o


def gen(rng, tier):
    data = analyses.gen_data(rng, n=rng.choice([0, 1, 3, 8, 20, 40]),
                             nan=rng.random() < .1)
    d = data['d']
    meta = {}
    for k, v in (('mc', analyses.mag(data['mc'], d)), ('delta_m', d),
                 ('b_value', .9), ('a_value', 2.)):
        if rng.random() < (.75 if k == 'delta_m' else .4):
            meta[k] = v
    return dict(data=data, meta=meta,
                cols=[c for c in ('weight', 'time', 'magnitude')
                      if rng.random() < (.6 if c == 'weight' else .93)],
                forecast=rng.random() < .15,
                index=rng.choice([None, None, 'rev', 'dup', 'label']),
                ops=[gen_op(rng, data) for _ in range(rng.randint(1, 8))])


def build(scn):
    data = scn['data']
    n = len(data['events'])
    index = {'rev': list(range(n, 0, -1)), 'dup': [i // 2 for i in range(n)],
             'label': [f'e{i}' for i in range(n)]}.get(scn['index'])
    c = analyses.catalog(data, index=index)
    df = cats.pd.DataFrame(c)
    df = df[[k for k in df.columns if k not in (
        'weight', 'time', 'magnitude') or k in scn['cols']]]
    if scn['forecast']:
        df['catalog_id'] = 0
        return ForecastCatalog(df, n_catalogs=3, **scn['meta'])
    return Catalog(df, **scn['meta'])


def extra(cat, o, n):
    """Arguments that hold one value per event."""
    kw = {}
    if o.get('times') == 'reversed' or o.get('kw') in ('times', 'both'):
        kw['times'] = np.arange(n)[::-1].copy()
    w = o.get('weights')
    if o.get('kw') in ('weights', 'both'):
        w = 'own'
    if w == 'own':
        kw['weights'] = np.arange(1, n + 1) / n
    elif w == 'ones':
        kw['weights'] = np.ones(n)
    elif w == 'neg':
        kw['weights'] = np.full(n, -1.)
    return kw


def call(cat, o):
    """The call on the catalog."""
    op, n = o['op'], len(cat)
    if op == 'maxc':
        return cat.estimate_mc_maxc(o['bin'], o['corr'])
    if op == 'stab':
        kw = extra(cat, o, n)
        if o['method'] != 'positive':
            kw.pop('times', None)
        return cat.estimate_mc_b_stability(
            delta_m=o.get('d'), mcs_test=o['mcs'] and np.array(o['mcs']),
            stop_when_passed=o['stop'], b_method=analyses.B[o['method']],
            stability_range=o['range'], verbose=o['verbose'], **kw)
    if op == 'ks':
        kw = extra(cat, o, n)
        if o['method'] != 'positive':
            kw.pop('times', None)
        return cat.estimate_mc_ks(
            delta_m=o.get('d'), mcs_test=o['mcs'] and np.array(o['mcs']),
            p_value_pass=o['pass'], stop_when_passed=o['stop'],
            b_value=o['b'], b_method=analyses.B[o['method']], n=3,
            ks_ds_list=analyses.KsLists(o['seed']) if o['lists'] else None,
            verbose=o['verbose'], **kw)
    kw = extra(cat, o, n)
    if o['method'] in ('positive', 'more'):
        kw['dmc'] = o['dmc']
    else:
        kw.pop('times', None)
    if op == 'b':
        return cat.estimate_b(mc=o.get('mc'), delta_m=o.get('d'),
                              method=analyses.B[o['method']], **kw)
    kw.pop('weights', None)
    return cat.estimate_a(mc=o.get('mc'), delta_m=o.get('d'),
                          scaling_factor=o['scale'], m_ref=o['m_ref'],
                          b_value=o['b'], method=analyses.A[o['method']],
                          **kw)


class Missing(Exception):
    """A prerequisite is missing."""


def reference(st, o):
    """The same with explicit arguments. st: what the catalog holds."""
    op = o['op']
    cols, meta = st['cols'], st['meta']
    if 'magnitude' not in cols:
        raise Missing('magnitude')
    m = cats.pd.Series(cols['magnitude'])
    n = len(m)
    d = o.get('d') if o.get('d') is not None else meta['delta_m']
    if op == 'maxc':
        return an.estimate_mc_maxc(m, o['bin'], o['corr'])
    if d is None:
        raise Missing('delta_m')
    kw = extra(None, o, n)
    if op in ('stab', 'ks'):
        if o['method'] != 'positive':
            kw.pop('times', None)
        mcs = o['mcs'] and np.array(o['mcs'])
        if op == 'stab':
            return an.estimate_mc_b_stability(
                m, d, mcs_test=mcs, stop_when_passed=o['stop'],
                b_method=analyses.B[o['method']],
                stability_range=o['range'], **kw)
        return an.estimate_mc_ks(
            m, d, mcs_test=mcs, p_value_pass=o['pass'],
            stop_when_passed=o['stop'],
            b_value=o['b'] if o['b'] is not None else meta['b_value'],
            b_method=analyses.B[o['method']], n=3,
            ks_ds_list=analyses.KsLists(o['seed']) if o['lists'] else None,
            **kw)
    mc = o.get('mc') if o.get('mc') is not None else meta['mc']
    if mc is None:
        raise Missing('mc')
    if o['method'] in ('positive', 'more'):
        kw['dmc'] = o['dmc']
        if 'times' not in kw and 'time' in cols:
            kw['times'] = cols['time']
        if 'times' not in kw and op == 'a':
            raise Missing('times')
    else:
        kw.pop('times', None)
    if op == 'b':
        e = analyses.B[o['method']]()
        if 'weights' not in kw and 'weight' in cols:
            kw['weights'] = cols['weight']
        e.calculate(m, mc, d, **kw)
        return e
    kw.pop('weights', None)
    e = analyses.A[o['method']]()
    e.calculate(m, mc, d, scaling_factor=o['scale'], m_ref=o['m_ref'],
                b_value=o['b'], **kw)
    return e


def canon(x):
    if hasattr(x, 'calculate'):
        return [type(x).__name__, analyses.est_state(x)]
    return analyses.canon(x)


def holds(cat):
    return dict(
        cols={k: cat[k].to_numpy().copy()
              for k in ('magnitude', 'time', 'weight') if k in cat},
        meta={k: getattr(cat, k) for k in ('mc', 'delta_m', 'b_value',
                                           'a_value')})


def change(cat, o):
    """Something else happens to the catalog; returns it."""
    op = o['op']
    if op == 'meta':
        setattr(cat, o['key'], o['v'])
    elif op == 'drop' and o['col'] in cat and len(cat.columns) > 1:
        del cat[o['col']]
    elif op == 'unbin' and 'magnitude' in cat and len(cat):
        cat['magnitude'] = cat['magnitude'] + .0123
    elif op == 'filter' and 'magnitude' in cat:
        cat = cat.iloc[o['x'] % 3:].copy()
    elif op == 'add':
        cat['time'] = np.datetime64('2020-01-01', 'ns') + \
            np.arange(len(cat)) * np.timedelta64(1, 'h')
    elif op == 'weight':
        cat['weight'] = 1. + o['x']
    return cat


def run(scn, ctx):
    cat = build(scn)
    done = 0
    for k, o in enumerate(scn['ops']):
        where = f'op {k} {o["op"]}'
        if o['op'] not in ATTR:
            cat = change(cat, o)
            continue
        before = cats.snapshot(cat)
        st = holds(cat)
        exc = EXC.get(o.get('exc'), RuntimeError)
        seed = o.get('seed', 0)
        with np.errstate(all='ignore'), analyses.quiet(analyses.sink()):
            rngseam.ambient(seed)
            try:
                ref = ('ok', reference(st, o))
            except Missing as e:
                ref = ('missing', str(e))
            except Exception as e:
                ref = ('raised', type(e).__name__, str(e))
            rngseam.ambient(seed)
            with sched.fail_at(o.get('fail'), exc) as f:
                try:
                    out = ('ok', call(cat, o))
                except BaseException as e:
                    out = ('raised', type(e).__name__, str(e))
        after = cats.snapshot(cat)
        attr = ATTR[o['op']]
        want = before
        if ref[0] == 'ok':
            v = ref[1].value if o['op'] in 'ab' else ref[1][0]
            meta = dict(before[4])
            meta[attr] = 'missing' if cats.qml.is_missing(v) else repr(v)
            want = before[:4] + (tuple(sorted(meta.items())),)
        if f.fired:
            ctx.fault(f'{exc.__name__} in an estimate')
        ctx.log(k, out[0], f.fired, after[4])
        ctx.state(o['op'], sorted(o), out[0], ref[0], f.fired)
        if out[0] == 'raised':
            if f.fired:
                if after != before and after != want:
                    raise Violation('half-published', f'{where} at '
                                    f'{f.fired}: ' + str(cats.snap_diff(
                                        before, after)))
                continue
            if ref[0] == 'ok':
                raise Violation('refused', f'{where} {o}: {out}')
            if after != before:
                raise Violation('changed-by-failure', f'{where}: '
                                + str(cats.snap_diff(before, after)))
            ctx.probe('refused')
            done += 1
            continue
        if ref[0] != 'ok':
            raise Violation('not-refused', f'{where} {o}: {canon(out[1])} '
                            f'instead of {ref}')
        if canon(out[1]) != canon(ref[1]):
            raise Violation('result', f'{where} {o}: {canon(out[1])} instead '
                            f'of {canon(ref[1])}'[:1500])
        if o['op'] in ('stab', 'ks') and (out[1][0] is None) != (
                out[1][1]['best_b_value'] is None):
            raise Violation('inconsistent', f'{where} {o}: mc {out[1][0]} '
                            f'with b-value {out[1][1]["best_b_value"]}')
        if after != want:
            raise Violation('not-published', f'{where} {o}: '
                            + str(cats.snap_diff(want, after)))
        ctx.probe('published')
        done += 1
    ctx.steps += len(scn['ops'])
    if done:
        ctx.nontrivial = repr(scn)
