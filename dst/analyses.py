"""Analyses of a catalog, as named operations with JSON parameters and
results that can be compared with ==.

A dataset is {'events': [[time in microseconds since 2000, lon, lat, depth,
magnitude in bins, weight]], 'd': bin size, 'mc': completeness in bins};
every event has its own ID, its position in the list.
"""
import contextlib
import io

import numpy as np
import pandas as pd

from seismostats import Catalog
from seismostats import analysis as an
from seismostats.analysis import b_significant as bs
from seismostats.analysis.estimate_mc import ks_test_gr
from seismostats.utils import (CoordinateTransformer, bin_to_precision,
                               binning_test, bounding_box_to_polygon,
                               cat_intersect_polygon, get_cum_fmd, get_fmd,
                               polygon_to_bounding_box)

from . import cats
from .core import Violation

B = {'classic': an.ClassicBValueEstimator, 'utsu': an.UtsuBValueEstimator,
     'positive': an.BPositiveBValueEstimator,
     'more': an.BMorePositiveBValueEstimator}
A = {'classic': an.ClassicAValueEstimator,
     'positive': an.APositiveAValueEstimator,
     'more': an.AMorePositiveAValueEstimator}
WINDOW = {'gk': an.GardnerKnopoffWindow, 'gru': an.GruenthalWindow,
          'uhr': an.UhrhammerWindow}
T0 = pd.Timestamp('2000-01-01')
DELTAS = [0.1, 0.1, 0.1, 0.2, 0.01, 0.5, 1.0, 0.05]


def mag(k, d):
    return float(np.round(k * d, 6))


def gen_data(rng, n=None, ties=True, nan=False):
    """A random dataset with aftershock-like clusters."""
    d = rng.choice(DELTAS)
    if n is None:
        n = rng.choice([0, 1, 2, 3, 8, 20, 20, 40, 40, 90])
    lo = rng.choice([0, 0, -5, 10, 20])
    b = rng.choice([.6, 1.0, 1.0, 1.6])
    top = int(7.5 / d)
    lo = max(-top, min(lo, top - 3))
    ev, t = [], 0
    place = [(round(rng.uniform(5, 11), 3), round(rng.uniform(44, 48), 3))
             for _ in range(3)]
    for i in range(n):
        k = lo + int(rng.expovariate(b * 2.302585) / d)
        k = min(k, top)
        step = rng.choice([0, 10 ** 6, 3 * 10 ** 7, 86400 * 10 ** 6,
                           rng.randrange(1, 10 ** 13)])
        t += step if ties else step + 1
        lon, lat = rng.choice(place)
        ev.append([t, round(lon + rng.choice([0, .01, .1, rng.random()]), 3),
                   round(lat + rng.choice([0, .01, .1, rng.random()]), 3),
                   round(rng.uniform(0, 30), 1), k,
                   0 if rng.random() < .02 else rng.choice(
                       [1, 1, 0.5, 2, round(rng.random(), 2) + .01])])
        if nan and rng.random() < .1:
            ev[-1][4] = None
    how = rng.choice(['time', 'time', 'shuffled', 'reversed'])
    if how == 'shuffled':
        rng.shuffle(ev)
    elif how == 'reversed':
        ev.reverse()
    return dict(events=ev, d=d, mc=lo + rng.choice([0, 0, 1, 3]))


def columns(data):
    """Times, magnitudes and weights without a catalog."""
    ev, d = data['events'], data['d']
    return {
        'time': pd.Series(np.array([T0 + pd.Timedelta(e[0], 'us')
                                    for e in ev], dtype='M8[ns]')),
        'magnitude': pd.Series([np.nan if e[4] is None else mag(e[4], d)
                                for e in ev], dtype=float),
        'weight': pd.Series([float(e[5]) for e in ev], dtype=float)}


def catalog(data, index=None, weight=True, cols=None):
    """The catalog of a dataset."""
    ev, d = data['events'], data['d']
    c = {
        'time': pd.to_datetime(pd.Series(
            [T0 + pd.Timedelta(e[0], 'us') for e in ev],
            dtype='datetime64[ns]')).values,
        'longitude': [float(e[1]) for e in ev],
        'latitude': [float(e[2]) for e in ev],
        'depth': [float(e[3]) for e in ev],
        'magnitude': [np.nan if e[4] is None else mag(e[4], d) for e in ev],
        'magnitude_type': ['ML'] * len(ev),
        'event_type': ['earthquake'] * len(ev),
        'eventID': [f'smi:x/{i}' for i in range(len(ev))],
        'originID': [f'smi:x/o/{i}' for i in range(len(ev))],
        'magnitudeID': [f'smi:x/m/{i}' for i in range(len(ev))]}
    if weight:
        c['weight'] = [float(e[5]) for e in ev]
    if cols:
        c = {k: v for k, v in c.items() if k in cols}
    return Catalog(pd.DataFrame(c, index=index), delta_m=d,
                   mc=mag(data['mc'], d))


def canon(x):
    """JSON-like form of a result; equal if and only if the results are
    indistinguishable to a user."""
    if isinstance(x, pd.DataFrame):
        return ['catalog', repr(cats.snapshot(x))]
    if isinstance(x, pd.Series):
        return ['series', [canon(i) for i in x.tolist()],
                [repr(i) for i in x.index]]
    if isinstance(x, np.ndarray):
        return ['array', str(x.dtype), list(x.shape),
                [canon(i) for i in x.ravel().tolist()]]
    if isinstance(x, (tuple, list)):
        return [type(x).__name__] + [canon(i) for i in x]
    if isinstance(x, dict):
        return ['dict', [[str(k), canon(v)] for k, v in x.items()]]
    if isinstance(x, (np.floating, float)):
        return 'nan' if x != x else repr(float(x))
    if isinstance(x, (np.integer,)):
        return repr(int(x))
    if isinstance(x, (np.bool_, bool)):
        return repr(bool(x))
    return repr(x)


def bootstrap(e, n, random_state):
    """Uncertainty by bootstrap (`std` without arguments takes long)."""
    if not hasattr(e, '_std_bootstrap'):
        return 'n/a'
    return e._std_bootstrap(n=n, random_state=random_state)


def est_state(e, std=True):
    """Everything an estimator reports."""
    out = {}
    keys = ['value', 'b_value', 'beta', 'a_value', 'n', 'magnitudes',
            'weights', 'times', 'idx', 'mc', 'delta_m', 'dmc', 'm_ref',
            'scaling_factor']
    if std and not isinstance(e, an.BMorePositiveBValueEstimator):
        keys += ['std', 'std_beta']
    for k in keys:
        try:
            out[k] = canon(getattr(e, k))
        except AttributeError as x:
            if 'Please calculate' in str(x):
                out[k] = 'refused'
            elif hasattr(type(e), k):
                raise
        except Exception as x:
            out[k] = ['raised', type(x).__name__]
    if std and isinstance(e, an.BMorePositiveBValueEstimator) \
            and out['value'] != 'refused':
        try:
            out['boot'] = canon(bootstrap(e, 3, 1))
        except Exception as x:
            out['boot'] = type(x).__name__
    return out


def col(cat, name, how):
    s = cat[name]
    if how == 'series':
        return s
    if how == 'list':
        return list(s)
    return s.to_numpy(copy=False)


def ks_list(seed, n):
    r = np.random.default_rng(seed)
    return np.round(r.random(n) * .5, 6)


class KsLists:
    """Distances for any number of candidates."""

    def __init__(self, seed):
        self.seed = seed

    def __getitem__(self, i):
        return ks_list(self.seed + i, 20)


# --- the analyses: f(catalog, parameters, how) -> result

def b_est(cat, p, how):
    e = B[p['method']]()
    kw = {}
    if p.get('weights') and 'weight' in cat:
        kw['weights'] = col(cat, 'weight', how)
    if p['method'] in ('positive', 'more'):
        if p.get('times'):
            kw['times'] = col(cat, 'time', how)
        kw['dmc'] = p.get('dmc')
    e.calculate(col(cat, 'magnitude', how), p['mc'], p['d'], **kw)
    return est_state(e)


def a_est(cat, p, how):
    e = A[p['method']]()
    kw = dict(scaling_factor=p.get('scale'), m_ref=p.get('m_ref'),
              b_value=p.get('b'))
    if p['method'] != 'classic':
        kw.update(times=col(cat, 'time', how), dmc=p.get('dmc'))
    e.calculate(col(cat, 'magnitude', how), p['mc'], p['d'], **kw)
    return est_state(e)


def b_func(cat, p, how):
    kw = {}
    if p['method'] in ('positive', 'more') and p.get('times'):
        kw['times'] = col(cat, 'time', how)
    return an.estimate_b(
        col(cat, 'magnitude', how), p['mc'], p['d'], method=B[p['method']],
        b_parameter=p['par'], return_std=p['method'] != 'more',
        return_n=p.get('n', False), **kw)


def a_func(cat, p, how):
    kw = {}
    if p['method'] != 'classic':
        kw['times'] = col(cat, 'time', how)
    return an.estimate_a(
        col(cat, 'magnitude', how), p['mc'], p['d'],
        scaling_factor=p.get('scale'), m_ref=p.get('m_ref'),
        b_value=p.get('b'), method=A[p['method']], **kw)


def mc_maxc(cat, p, how):
    return an.estimate_mc_maxc(
        col(cat, 'magnitude', 'series' if how == 'series' else 'array'),
        p['bin'], p['corr'])


def _mckw(cat, p, how):
    kw = {}
    if p.get('times') and p['method'] in ('positive', 'more'):
        kw['times'] = col(cat, 'time', how)
    if p.get('weights') and 'weight' in cat:
        kw['weights'] = col(cat, 'weight', how)
    return kw


def mc_stab(cat, p, how):
    return an.estimate_mc_b_stability(
        col(cat, 'magnitude', 'series' if how == 'series' else 'array'),
        p['d'], mcs_test=p.get('mcs'), stop_when_passed=p['stop'],
        b_method=B[p['method']], stability_range=p['range'],
        **_mckw(cat, p, how))


def mc_ks(cat, p, how):
    ks = None
    if p.get('ks'):
        ks = KsLists(p['ks'])
    return an.estimate_mc_ks(
        col(cat, 'magnitude', 'series' if how == 'series' else 'array'),
        p['d'], mcs_test=p.get('mcs'), p_value_pass=p['pass'],
        stop_when_passed=p['stop'], b_value=p.get('b'),
        b_method=B[p['method']], n=p.get('n', 5), ks_ds_list=ks,
        **_mckw(cat, p, how))


def ks_test(cat, p, how):
    kw = {}
    if p.get('weights') and 'weight' in cat:
        kw['weights'] = col(cat, 'weight', how)
    return ks_test_gr(col(cat, 'magnitude', how), p['mc'], p['d'], p['b'],
                      ks_ds=ks_list(p['ks'], 20), **kw)


def signif(cat, p, how):
    m = col(cat, 'magnitude', how)
    x = None
    if p.get('x'):
        x = col(cat, p['x'], how)
    mc = p['mc']
    if p.get('mcs'):
        # the completeness depends on the event
        mc = [p['mcs'][hash_id(i) % len(p['mcs'])] for i in cat['eventID']] \
            if 'eventID' in cat else p['mc']
    kw = {}
    if p['method'] == 'weird':
        raise ValueError
    return an.b_significant_1D(
        m, mc, p['d'], col(cat, 'time', how), p['n_m'],
        min_num=p['min'], method={**B, 'a': A['classic']}[p['method']],
        x_variable=x, conservative=p['cons'], **kw)


def hash_id(i):
    return int(str(i).rsplit('/', 1)[-1])


def partition(cat, p, how):
    m = col(cat, 'magnitude', how)
    t = col(cat, 'time', how)
    k = max(1, p['parts'])
    idx = np.array_split(np.arange(len(cat)), k)
    ms = [np.asarray(m)[i] for i in idx]
    ts = [np.asarray(t)[i] for i in idx]
    return bs.values_from_partitioning(
        ms, ts, p['mc'], p['d'], method={**B, **{
            'a_' + n: v for n, v in A.items()}}[p['method']])


def morans(cat, p, how):
    v = np.array(cat['depth'])
    n = len(v)
    w = None
    if p.get('w'):
        r = np.random.default_rng(p['w'])
        w = (r.random((n, n)) < .3).astype(float)
        if p['sym'] == 'upper':
            w = np.triu(w)
        elif p['sym'] == 'sym':
            w = np.triu(w) + np.triu(w, 1).T
        elif p['sym'] == 'lower':
            w = np.tril(w)
        if p.get('bad') == 'values':
            w = w * .5
        elif p.get('bad') == 'shape':
            w = w[:, 1:]
        w0 = w.copy()
    if p.get('nan') and n:
        v[::3] = np.nan
    v0 = v.copy()
    out = bs.est_morans_i(v, w, p.get('mean'))
    if not np.array_equal(v, v0, equal_nan=True) or (
            w is not None and not np.array_equal(w, w0)):
        raise Violation('input-changed', str(p))
    return out


def cut(cat, p, how):
    return bs.cut_constant_idx(col(cat, 'magnitude', how), p['n_m'],
                               p['off'])


def trans_n(cat, p, how):
    return bs.transform_n(np.array(cat['depth']) + .5, 1.1, p['n1'], p['n2'])


def decluster(cat, p, how):
    if p.get('without') in cat:
        cat = cat.drop(columns=p['without'])
    g = an.GardnerKnopoffType1(
        time_distance_window=WINDOW[p['window']](p.get('cutoff')),
        fs_time_prop=p['fs'])
    return g(cat)


def binning(cat, p, how):
    m = col(cat, 'magnitude', how)
    if p.get('any'):
        return (binning_test(m, 0, p['any']),
                binning_test(m, 0, check_larger_binning=False))
    return (bin_to_precision(m, p['bin']), binning_test(m, p['bin']),
            binning_test(m, p['bin'], check_larger_binning=False))


def fmd(cat, p, how):
    m = col(cat, 'magnitude', how)
    w = col(cat, 'weight', how) if p.get('weights') and 'weight' in cat \
        else None
    return (get_fmd(m, p['bin'], w, p['pos']),
            get_cum_fmd(m, p['bin'], w, p['pos']))


def larger(cat, p, how):
    return an.find_next_larger(col(cat, 'magnitude', 'array'), p['d'],
                               p.get('dmc'))


def incomplete(cat, p, how):
    return an.make_more_incomplete(
        col(cat, 'magnitude', 'array'), col(cat, 'time', 'array'),
        np.timedelta64(p['dt'], 's'), p.get('idx', True))


def shi_bolt(cat, p, how):
    w = col(cat, 'weight', how) if p.get('weights') and 'weight' in cat \
        else None
    return an.shi_bolt_confidence(col(cat, 'magnitude', how), p['b'],
                                  weights=w)


def edwards(cat, p, how):
    return [an.apply_edwards(p['type'], float(m))
            for m in cat['magnitude'].iloc[:3]]


def _table(p):
    # magnitudes below the table are left out, with a warning
    k = p.get('above', 0)
    return np.array([[p['mc'] + (k - .5) * p['d'], 1990.],
                     [p['mc'] + (k + 2) * p['d'], 1970.]])


def kijko(cat, p, how):
    t = _table(p)
    out = an.estimate_b_kijko_smit(
        col(cat, 'magnitude', 'array'), col(cat, 'time', how), t,
        delta_m=p['d'], last_year=p.get('last'),
        b_parameter=p.get('par', 'b_value'))
    if not np.array_equal(t, _table(p)):
        raise Violation('input-changed', str(p))
    return out


def weichert(cat, p, how):
    t = _table(p)
    out = an.estimate_b_weichert(
        col(cat, 'magnitude', 'array'), col(cat, 'time', how), t, mag_max=9,
        delta_m=p['d'], last_year=p.get('last'),
        b_parameter=p.get('par', 'b_value'))
    if not np.array_equal(t, _table(p)):
        raise Violation('input-changed', str(p))
    return out


def plot_sig(cat, p, how):
    """The lines and bands of the plot of the mean autocorrelation."""
    from matplotlib.figure import Figure
    from seismostats.plots import plot_b_significant_1D
    n_ms = p['n_ms'] and np.array(p['n_ms'])
    ax = plot_b_significant_1D(
        col(cat, 'magnitude', how), p['mc'], p['d'], col(cat, 'time', how),
        n_ms, min_num=p['min'], method=B[p['method']],
        x_variable=col(cat, p['x'], how) if p['x'] else None,
        ax=Figure().subplots())
    return [[np.asarray(ln.get_xdata(), float),
             np.asarray(ln.get_ydata(), float)] for ln in ax.lines]


def quakeml(cat, p, how):
    return cat.to_quakeml(agencyID='A', author='B')


def reread(cat, p, how):
    return Catalog.from_quakeml(cat.to_quakeml(agencyID='A', author='B'),
                                include_ids=True)


def cat_b(cat, p, how):
    c = cat.copy()
    e = c.estimate_b(mc=p.get('mc'), delta_m=p.get('d'),
                     method=B[p['method']])
    return est_state(e), c


def cat_a(cat, p, how):
    c = cat.copy()
    kw = {}
    e = c.estimate_a(mc=p.get('mc'), delta_m=p.get('d'), b_value=p.get('b'),
                     m_ref=p.get('m_ref'), method=A[p['method']], **kw)
    return est_state(e), c


def cat_maxc(cat, p, how):
    c = cat.copy()
    return c.estimate_mc_maxc(p['bin'], p['corr']), c


def cat_stab(cat, p, how):
    c = cat.copy()
    return c.estimate_mc_b_stability(
        mcs_test=p.get('mcs'), stop_when_passed=p['stop'],
        stability_range=p['range'], b_method=B[p['method']]), c


def cat_ks(cat, p, how):
    c = cat.copy()
    return c.estimate_mc_ks(
        mcs_test=p.get('mcs'), p_value_pass=p['pass'],
        stop_when_passed=p['stop'],
        ks_ds_list=KsLists(p['ks'])), c


def cat_ops(cat, p, how):
    return [cat.bin_magnitudes(p['bin']), cat.strip(),
            cat.drop_uncertainties(), cat.drop_ids()][p['which']]


def polygon(cat, p, how):
    return cat_intersect_polygon(cat, [(44, 5), (48, 5), (48, 9), (44, 9)])


_CT = {}


def coords(cat, p, how):
    ct = CoordinateTransformer(2056, 2642690, 1205590)
    e, n, a = ct.to_local_coords(list(cat['longitude']),
                                 list(cat['latitude']),
                                 list(cat['depth']))
    back = ct.from_local_coords(e, n, a)
    poly = bounding_box_to_polygon(7., 8., 46., 47.)
    return (np.array(e), np.array(n), np.array(a),
            [np.array(x) for x in back],
            polygon_to_bounding_box(ct.polygon_to_local_coords(poly)),
            polygon_to_bounding_box(ct.polygon_from_local_coords(
                ct.polygon_to_local_coords(poly))),
            ct.to_local_coords(list(cat['longitude']),
                               list(cat['latitude'])))


ALL = {f.__name__: f for f in (
    b_est, a_est, b_func, a_func, mc_maxc, mc_stab, mc_ks, ks_test, signif,
    partition, morans, cut, trans_n, decluster, binning, fmd, larger,
    incomplete, shi_bolt, edwards, kijko, weichert, quakeml, reread, cat_b,
    cat_a, cat_maxc, cat_stab, cat_ks, cat_ops, polygon, coords, plot_sig)}
SLOW = {'weichert', 'coords', 'plot_sig'}


def gen_op(rng, data, names=None):
    """A random analysis of a dataset: {'op': name, parameters}."""
    name = rng.choice(names or [n for n in ALL if n not in SLOW
                                or rng.random() < .15])
    d, k = data['d'], data['mc']
    mc = mag(k + rng.choice([0, 0, 0, 1, -1]), d)
    mcs = rng.choice([None, [mag(k + i, d) for i in (
        [0, 1, 2], [2, 0, 1], [5], [0, 0, 3], [-3, 0, 3, 6])[
            rng.randrange(5)]]])
    p = dict(op=name, mc=mc, d=d, how=rng.choice(['array', 'array', 'list',
                                                  'series']))
    if rng.random() < .04:
        p['d'] = rng.choice([d * 2, d / 3, 0, -.1])
    r = rng.random
    if name in ('b_est', 'b_func', 'cat_b'):
        p.update(method=rng.choice(list(B)), weights=r() < .4,
                 times=r() < .6, par=rng.choice(['b_value', 'beta']),
                 dmc=rng.choice([None, d, 2 * d, 0, d / 2]
                                + [-d] * (r() < .1)), n=r() < .3)
    elif name in ('a_est', 'a_func', 'cat_a'):
        p.update(method=rng.choice(list(A)), scale=rng.choice(
            [None, 2.5, 10]), m_ref=rng.choice([None, None, 0., 2.]),
            b=rng.choice([1., .8, 1.] + [None] * (r() < .3)),
            dmc=rng.choice([None, d, 2 * d]))
    elif name in ('mc_maxc', 'cat_maxc'):
        p.update(bin=rng.choice([d, .1, .5]), corr=rng.choice([.2, 0., .1]))
    elif name in ('mc_stab', 'cat_stab'):
        p.update(mcs=mcs, stop=r() < .5, method=rng.choice(
            ['classic', 'classic', 'utsu', 'positive']), range=rng.choice(
                [.5, .5, 2 * d, 1.0]), times=r() < .5, weights=r() < .3)
        ks = [e[4] for e in data['events'] if e[4] is not None]
        span = (max(ks) - min(ks)) * d if ks else 0
        b = p['d'] if p['d'] > 0 else d
        if mcs is None and (span > 100 * d or span * p['range'] > 5000 * b * b):
            # thousands of estimates otherwise
            p['range'] = 5 * min(b, d)
    elif name in ('mc_ks', 'cat_ks'):
        p.update(mcs=mcs, stop=r() < .5, method=rng.choice(
            ['classic', 'classic', 'utsu', 'positive']), b=rng.choice(
                [None, None, 1.0]), ks=rng.randrange(1, 1000),
            times=r() < .5, weights=r() < .3)
        p['pass'] = rng.choice([.1, .5, .05, 0., 1.])
    elif name == 'ks_test':
        p.update(b=rng.choice([1., .5, 2.]), ks=rng.randrange(1, 1000),
                 weights=r() < .3)
    elif name == 'signif':
        p.update(method=rng.choice(['classic', 'positive', 'a', 'utsu']),
                 n_m=rng.choice([2, 3, 5, 8]), min=rng.choice([2, 2, 1, 3]),
                 x=rng.choice([None, 'depth', 'time', 'longitude']),
                 cons=r() < .5, mcs=rng.choice(
                     [None, None, [mag(k, d), mag(k + 1, d)],
                      [mag(k + i, d) for i in range(4)]]))
    elif name == 'partition':
        p.update(method=rng.choice(['classic', 'utsu', 'positive',
                                    'a_classic', 'a_positive']),
                 parts=rng.choice([1, 2, 5]))
    elif name == 'morans':
        p.update(w=rng.choice([0, rng.randrange(1, 1000)]),
                 sym=rng.choice(['upper', 'sym', 'lower', 'none']),
                 nan=r() < .3, mean=rng.choice([None, 10.]),
                 bad=rng.choice([None] * 8 + ['values', 'shape']))
    elif name == 'cut':
        p.update(n_m=rng.choice([1, 3, 5]), off=rng.choice([0, 1, 2]))
    elif name == 'trans_n':
        p.update(n1=rng.choice([10, 20]), n2=rng.choice([20, 15, 50]))
    elif name == 'decluster':
        p.update(window=rng.choice(list(WINDOW)), fs=rng.choice(
            [1.0, .5, 0.]), cutoff=rng.choice([None, None, 10, 0]),
                 without=rng.choice([None] * 8 + ['time', 'magnitude']))
    elif name in ('binning', 'fmd', 'cat_ops'):
        p.update(bin=rng.choice([d, d, .1, .5, 2 * d]), weights=r() < .5,
                 pos=rng.choice(['center', 'left']),
                 any=rng.choice([0] * 6 + [1e-15, .001, .3]),
                 which=rng.randrange(4))
    elif name == 'larger':
        p.update(dmc=rng.choice([None, 2 * d]))
    elif name == 'incomplete':
        p.update(dt=rng.choice([1, 60, 86400]), idx=r() < .7)
    elif name == 'shi_bolt':
        p.update(b=1.1, weights=r() < .5)
    elif name == 'edwards':
        p.update(type=rng.choice(['ML', 'Mw', 'Ml', 'mb', 'MLh']))
    elif name in ('kijko', 'weichert'):
        p.update(last=rng.choice([None, 2035]), above=rng.choice(
            [-2, 0, 0, 1]), par=rng.choice(['b_value'] * 4 + ['beta'] * 2
                                           + ['b']))
    elif name == 'plot_sig':
        p.update(n_ms=rng.choice([None, [2, 3], [3], [2, 30]]), x=rng.choice(
            [None, 'depth', 'time']), min=rng.choice([1, 2]),
            method=rng.choice(['classic', 'positive']))
    return p


def perform(cat, p, text=True):
    """Canonical outcome of an analysis: its result or its error."""
    if p['op'] not in ALL:
        return ['no such analysis']
    try:
        return ['ok', canon(ALL[p['op']](cat, p, p['how']))]
    except Violation:
        raise
    except Exception as e:
        return ['raised', type(e).__name__, str(e) if text else '']


quiet = contextlib.redirect_stdout
sink = io.StringIO
