"""C18 plots draw the given events, whatever happened before."""
import warnings

import matplotlib
import numpy as np
import pandas as pd
from scipy.stats import norm

from dst import analyses, cats, rngseam, sched
from dst.core import Violation
from seismostats import plots
from seismostats.analysis.b_significant import b_significant_1D
from seismostats.utils import get_option, set_option

matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa
from matplotlib.backends.backend_agg import FigureCanvasAgg  # noqa
from matplotlib.figure import Figure  # noqa

PROP = 'C18'
LEVEL = 'exploration'
RULE = ('A run makes up to eight plots (functions and methods of a catalog) '
        'on axes of their own, shared or new ones, some failing at a chosen '
        'line, with analyses in between, and compares what is drawn with an '
        'independent derivation, with the same plot made first, and with '
        'that of a permuted or re-indexed catalog; non-trivial if something '
        'was drawn after something else; distinct by the whole scenario.')
STATE = '(plot, form of the data, outcome, plot before)'
COMPONENTS = {
    'real': ['seismostats.plots, Catalog.plot_*', 'matplotlib, cartopy'],
    'stub': ['tile server and file of the countries', 'failures at any executed line', 'random stream']}
ASSUMPTIONS = [
    'Drawn is what the artists of the axes hold; only some maps are '
    'rendered.']
BUDGET = {'quick': dict(runs=2500, wall=80, recheck=20, shrink=60),
          'thorough': dict(runs=300000, wall=1200, recheck=200, shrink=120)}
EXC = {'memory': MemoryError, 'interrupt': KeyboardInterrupt,
       'runtime': RuntimeError}
NAMES = ['cum_fmd', 'cum_fmd', 'fmd', 'cum_count', 'cum_count',
         'mags_in_time', 'mags_in_time', 'mc_vs_b', 'mc_vs_b', 'b_series',
         'b_series', 'b_significant', 'space']


def gen_plot(rng, data):
    d, k = data['d'], data['mc']
    r = rng.random
    p = dict(op=rng.choice(NAMES), form=rng.choice(
        ['array', 'array', 'series', 'labels', 'method', 'method']),
        ax=rng.choice(['own', 'own', 'own', 'new']),
        weights=r() < .3, mc=analyses.mag(k + rng.choice([0, 0, 1, 2]), d))
    op = p['op']
    if op in ('cum_fmd', 'fmd'):
        p.update(bin=rng.choice([d, d, 2 * d, .5]), pos=rng.choice(
            ['center', 'left']), b=rng.choice([None, 1., .8]),
            usemc=r() < .5, label=rng.choice([True, False, 'x']),
            line=rng.choice([True, False, 'y']), grid=r() < .3,
            color=rng.choice([None, 'red', '#00ff00']),
            color_line=rng.choice([None, None, 'green']),
            size=rng.choice([None, None, 7]))
        if op == 'cum_fmd' and r() < .2:
            p['bin'] = None
    elif op == 'cum_count':
        p.update(mcs=rng.choice([None, [p['mc']], [analyses.mag(k + 2, d),
                                                   analyses.mag(k, d)]]),
                 norm=r() < .6, color=rng.choice([None, 'red']))
        if r() < .3 and p['mcs'] and len(p['mcs']) == 2:
            p['color'] = ['red', 'blue']
        if r() < .15:
            p['dm'] = None
        if r() < .05:
            p.update(color=['red', 'blue', 'red'], bad='length')
    elif op in ('mags_in_time', 'space'):
        p.update(small=rng.choice([10, 5, 1]), large=rng.choice([200, 50]),
                 power=rng.choice([2, 1, 3]), color=rng.choice(
                     ['blue', 'depth']))
        if p['color'] == 'depth':
            p['cmap'] = rng.choice(['viridis', 'jet'])
        if r() < .1:
            p['power'] = 0
        if r() < .07:
            p['large'] = p['small'] - rng.choice([0, 1])
        if op == 'space':
            p['labels'] = rng.choice(['auto', 'auto', 'auto', None, 4,
                                      [0., 1., 2., 3.], 'array'])
        if op == 'space' and r() < .3:
            p.update(map=rng.choice([None, 'gray', 'jet']),
                     country=rng.choice([None, 'X']), draw=r() < .15,
                     style=rng.choice(['satellite', 'street']),
                     res=rng.choice(['10m', '50m', '110m']))
        if op == 'mags_in_time' and r() < .6:
            p.update(change=rng.choice([[2000, 2001], [2000], 'dates',
                                        'array']),
                     mcs=[3., 2.], color_line=rng.choice(['red', 'green']))
    elif op == 'mc_vs_b':
        p.update(mcs=[analyses.mag(k + i, d) for i in rng.choice(
            [[0], [0, 1, 2], [2, 0], [0, 1, 400]])], method=rng.choice(
                ['classic', 'utsu', 'positive']), ci=rng.choice([.95, .5]),
            label=rng.choice([None, 'b']), times=r() < .5,
            color=rng.choice(['blue', 'red']))
    else:
        p.update(n_m=rng.choice([2, 3, 5, 8]), min=rng.choice([2, 2, 1]),
                 method=rng.choice(['classic', 'positive', 'utsu']),
                 x=rng.choice([None, 'depth', 'time']), cons=r() < .5,
                 tech=rng.choice(['left', 'midpoint', 'right']),
                 mcs=r() < .4, label=rng.choice([None, 'b']),
                 level=rng.choice([.95, .6]),
                 color=rng.choice(['blue', 'red', '#804020']))
        if r() < .3:
            p['mc_as'] = '0-d'
        if op == 'b_significant':
            p['n_ms'] = rng.choice([[2, 3], [2], [5, 2, 3], [30], None])
            p['n_ms_as'] = rng.choice(['array', 'list'])
        if r() < .08:
            p['bad'] = rng.choice(['tech', 'x', 'times', 'n_m'])
            if op == 'b_significant':
                p.update(bad='x')
    if op in ('cum_count', 'mc_vs_b', 'b_series', 'b_significant') and \
            r() < .25 and 'dm' not in p:
        p['dm'] = rng.choice([1, 2, 2, .5])
    return p


def gen(rng, tier):
    data = analyses.gen_data(rng, n=rng.choice([1, 2, 5, 12, 30, 60]),
                             ties=rng.random() < .3,
                             nan=rng.random() < .25)
    ops = []
    for _ in range(rng.randint(2, 8)):
        if rng.random() < .15:
            ops.append(dict(op='analyse', p=analyses.gen_op(rng, data)))
            continue
        if ops and rng.random() < .3:
            # the same plot again, possibly in another form
            prev = rng.choice(ops)
            if prev['op'] != 'analyse':
                ops.append({k: v for k, v in prev.items()
                            if k not in ('fail', 'exc')})
                continue
        p = gen_plot(rng, data)
        if rng.random() < .2:
            p['fail'] = rng.randint(1, rng.choice([5, 20, 60]))
            p['exc'] = rng.choice(list(EXC))
        ops.append(p)
    return dict(data=data, ops=ops, perm=rng.randrange(10 ** 6))


# --- arguments and calls

def arguments(cat, p):
    """(positional, keywords) of the function, as arrays."""
    d = cat.delta_m
    if p.get('dm'):
        d = p['dm'] * d
    m = cat['magnitude']
    t = cat['time']
    w = cat['weight'] if p['weights'] else None
    op = p['op']
    if op == 'cum_fmd':
        return dict(magnitudes=m, mc=p['mc'] if p['usemc'] else None,
                    fmd_bin=p['bin'], weights=w, b_value=p['b'],
                    color=p['color'], bin_position=p['pos'], grid=p['grid'],
                    color_line=p['color_line'], size=p['size'],
                    label=p['label'], label_line=p['line'])
    if op == 'fmd':
        return dict(magnitudes=m, fmd_bin=p['bin'], weights=w,
                    color=p['color'], size=p['size'], bin_position=p['pos'], grid=p['grid'],
                    label=p['label'])
    if op == 'cum_count':
        return dict(times=t, magnitudes=m,
                    delta_m=p['dm'] and d if 'dm' in p else d, weights=w,
                    mcs=None if p['mcs'] is None else np.array(p['mcs']),
                    normalize=p['norm'], color=p['color'])
    if op in ('mags_in_time', 'space'):
        kw = dict(magnitudes=m, dot_smallest=p['small'],
                  dot_largest=p['large'],
                  dot_interpolation_power=p['power'],
                  color_dots=cat['depth'] if p['color'] == 'depth'
                  else p['color'])
        if p.get('cmap'):
            kw['cmap'] = p['cmap']
        if op == 'space':
            kw.update(longitudes=cat['longitude'], include_map='map' in p,
                      latitudes=cat['latitude'],
                      dot_labels=np.arange(5.) if p['labels'] == 'array'
                      else p['labels'])
            if 'map' in p:
                kw.update(color_map=p['map'], country=p['country'],
                          resolution=p['res'], style=p['style'])
            return kw
        kw['times'] = t
        if p.get('change'):
            c = p['change']
            if c == 'dates':
                c = [pd.Timestamp('2000-01-02'), pd.Timestamp('2000-05-01')]
            if c == 'array':
                c = np.array([2000, 2001])
            else:
                c = list(c)
            kw.update(mc_change_times=c, mcs=p['mcs'][:len(c)],
                      color_line=p['color_line'])
        return kw
    if op == 'mc_vs_b':
        kw = dict(magnitudes=m, mcs=np.array(p['mcs']), delta_m=d,
                  b_method=analyses.B[p['method']],
                  confidence_interval=p['ci'], label=p['label'],
                  color=p['color'])
        if p['weights']:
            kw['weights'] = w
        if p['times'] and p['method'] == 'positive':
            kw['times'] = t
        return kw
    kw = dict(magnitudes=m, delta_m=d, mc=p['mc'], times=t,
              min_num=p['min'], method=analyses.B[p['method']],
              label=p['label'], color=p['color'])
    if p.get('mc_as'):
        kw['mc'] = np.array(p['mc'])
    if p['mcs']:
        kw['mc'] = np.array([p['mc'] + d * (analyses.hash_id(i) % 2)
                             for i in cat['eventID']])
    if p['x']:
        kw['x_variable'] = cat[p['x']]
    bad = p.get('bad')
    if bad == 'x':
        kw['x_variable'] = np.arange(len(m) + 1)
    if bad == 'times':
        kw['times'] = t.iloc[1:]
    if op == 'b_series':
        return dict(kw, n_m=0 if bad == 'n_m' else p['n_m'],
                    plot_technique='center' if bad == 'tech' else p['tech'],
                    confidence_level=p['level'])
    return dict(kw, n_ms=np.array(p['n_ms'])
                if p['n_ms'] and p['n_ms_as'] == 'array' else p['n_ms'],
                conservative=p['cons'], p_threshold=1 - p['level'])


FUNC = {'cum_fmd': plots.plot_cum_fmd, 'fmd': plots.plot_fmd,
        'cum_count': plots.plot_cum_count,
        'mags_in_time': plots.plot_mags_in_time,
        'mc_vs_b': plots.plot_mc_vs_b,
        'b_series': plots.plot_b_series_constant_nm,
        'b_significant': plots.plot_b_significant_1D,
        'space': plots.plot_in_space}
METHODS = {'cum_fmd', 'fmd', 'cum_count', 'mags_in_time', 'mc_vs_b',
           'space'}


def shape(kw, form):
    out = {}
    for k, v in kw.items():
        if isinstance(v, pd.Series):
            if form == 'array':
                v = v.to_numpy()
            elif form == 'labels':
                v = pd.Series(v.to_numpy(), index=[
                    f'e{i}' for i in range(len(v))][::-1])
            else:
                v = pd.Series(v.to_numpy())
        out[k] = v
    return out


def plain(v):
    """Comparable copy of an argument."""
    if isinstance(v, pd.Series):
        return ['series', repr(v.tolist()), repr(list(v.index))]
    if isinstance(v, np.ndarray):
        return ['array', repr(v.tolist()), str(v.dtype)]
    return repr(v)


def axes(p):
    if p['op'] == 'space':
        import cartopy.crs as ccrs
        if 'map' in p:
            ax = Figure().add_subplot(projection=ccrs.GOOGLE_MERCATOR)
            ax.set_extent([6, 9, 45, 47], crs=ccrs.PlateCarree())
            return ax
        return Figure().add_subplot(projection=ccrs.PlateCarree())
    return Figure().subplots()


def call(cat, p, kw, ax):
    op = p['op']
    if p['form'] == 'method' and op in METHODS:
        kw = {k: v for k, v in kw.items() if k not in (
            'magnitudes', 'longitudes', 'latitudes') and (
                k != 'times' or op == 'mc_vs_b')}
        if kw.get('delta_m') is not None and not p.get('dm'):
            del kw['delta_m']   # of the catalog
        if kw.get('fmd_bin') is None:
            kw.pop('fmd_bin', None)
        return getattr(cat, 'plot_' + op.replace(
            'space', 'in_space'))(ax=ax, **kw)
    return FUNC[op](ax=ax, **kw)


ASKED = []


def tile(self, tile):
    """An image of the simulated tile server."""
    from PIL import Image
    ASKED.append(('style', self.style))
    a = np.fromfunction(lambda i, j: (i + j) % 256, (256, 256))
    img = Image.fromarray(a.astype('uint8')).convert(self.desired_tile_form)
    return img, self.tileextent(tile), 'lower'


def simulate_server():
    """Maps come from a simulated server and disk."""
    import cartopy.io.img_tiles as t
    import geopandas
    from cartopy.io import shapereader
    from shapely.geometry import box
    shapereader.natural_earth = lambda resolution, *a, **k: \
        ASKED.append(('resolution', resolution)) or 'countries'
    geopandas.read_file = lambda f: geopandas.GeoDataFrame(
        {'ADMIN': ['X'], 'geometry': [box(6, 45, 9, 47)]})
    t.GoogleWTS.get_image = t.GoogleTiles.get_image = tile


simulate_server()


def show(ax, p):
    """Render a map and check the image below the events."""
    fig = ax.figure
    fig.set_dpi(20)
    FigureCanvasAgg(fig).draw()
    have = [i.get_cmap().name for i in ax.images]
    if p['map'] is not None and p['map'] not in have:
        raise Violation('map', f'{p}: drawn with {have}')
    if ('style', p['style']) not in ASKED:
        raise Violation('map', f'{p}: asked for {ASKED}')


# --- what is drawn

def num(v):
    return [x if x == x else 'nan' for x in np.asarray(
        np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)).ravel(
            ).tolist()]


def dates(v):
    from matplotlib.dates import date2num
    v = np.asarray(v)
    if v.dtype.kind in 'MO':
        v = date2num(v)
    return num(v)


def drawn(ax, first=0, fresh=True):
    out = dict(lines=[], points=[], areas=[], shades=[])
    for ln in ax.lines:
        out['lines'].append([dates(ln.get_xdata()), dates(ln.get_ydata()),
                             str(ln.get_label()),
                             matplotlib.colors.to_hex(ln.get_color())])
    for c in ax.collections:
        if type(c).__name__ == 'PathCollection':
            off = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
            out['points'].append([num(off[:, 0]), num(off[:, 1]),
                                  num(c.get_sizes()),
                                  num(np.round(c.get_facecolors(), 6)),
                                  None if c.get_array() is None else num(
                                      c.get_array()), str(c.get_label())])
        elif hasattr(c, 'get_paths'):
            out['areas'].append([num(p.vertices) for p in c.get_paths()])
            out['shades'].append(num(c.get_facecolor()))
    out['labels'] = [ax.get_xlabel(), ax.get_ylabel(), ax.get_title(),
                     ax.get_xscale(), ax.get_yscale()]
    out['grid'] = [any(t.gridline.get_visible() for t in a.get_major_ticks())
                   for a in (ax.xaxis, ax.yaxis)]
    lg = ax.get_legend()
    out['legend'] = None if lg is None else [x.get_text()
                                             for x in lg.get_texts()]
    return out


def close(a, b, tol=1e-9):
    if a == b:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(abs(a), abs(b), 1)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol)
                                        for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol)
                                            for k in a)
    return False


# --- independent derivation of what has to be drawn

def gr_line(kw, centers, m, d, shift):
    """The theoretical distribution from the completeness on."""
    b, mc = kw['b_value'], kw['mc']
    if b is None:
        return []
    edge = (min(m) if mc is None else mc) - d / 2
    if any(abs(c - edge) < 1e-6 for c in centers) and d:
        return []   # on the edge between two bins
    x = [c for c in centers if c >= edge - 1e-9]
    n = sum(v >= edge - 1e-9 for v in m)
    if not x:
        return []
    y = [float(n * 10 ** (-b * (c - x[0]))) for c in x]
    x = [c - shift for c in x]
    # the line is not scaled by weights
    return [('line', x, y if kw['weights'] is None else None)]


def expected(p, kw, ev):
    """[(what, [x...], [y...])] or None if not derived."""
    op = p['op']
    m = np.asarray(kw['magnitudes'], float)
    if np.isnan(m).all():
        return None
    if np.isnan(m).any() and (op not in (
            'mags_in_time', 'space', 'cum_count', 'mc_vs_b', 'cum_fmd',
            'fmd') or op == 'mc_vs_b' and p['method'] == 'positive'):
        return None
    w = np.asarray(kw['weights'], float) if kw.get(
        'weights') is not None else np.ones(len(m))
    if op in ('cum_fmd', 'fmd'):
        # events without a magnitude do not count
        w, m = w[~np.isnan(m)], m[~np.isnan(m)]
        d = kw['fmd_bin']
        if not d:
            x = sorted(set(m.tolist()))
            return [('points', x, [float(w[m >= v].sum()) for v in x])] \
                + gr_line(kw, x, m, 0, 0)
        k = np.floor(np.round(m / d, 6) + .5).astype(int)
        bins = range(k.min(), k.max() + 1)
        if op == 'fmd':
            y = [float(w[k == b].sum()) for b in bins]
        else:
            y = [float(w[k >= b].sum()) for b in bins]
        s = d / 2 if p['pos'] == 'left' else 0
        return [('points', [b * d - s for b in bins], y)] + (
            gr_line(kw, [b * d for b in bins], k * d, d, s)
            if op == 'cum_fmd' else [])
    if op == 'cum_count':
        t = np.asarray(kw['times'])
        d = kw['delta_m'] or 0
        if len(set(t.tolist())) < len(t):
            # any order of simultaneous events is fine
            w = np.ones(len(m)) if kw.get('weights') is None else None
        if w is None:
            return None
        out = []
        for mc in (kw['mcs'] if kw['mcs'] is not None else [np.nanmin(m)]):
            s = m >= mc - d / 2
            k = np.argsort(t[s], kind='stable')
            ww = w[s][k]
            if not ww.sum() > 0:
                continue
            x = [t.min()] + list(t[s][k]) + [t.max()]
            y = [0.] + np.cumsum(ww).tolist() + [float(ww.sum())]
            if kw['normalize']:
                y = [v / y[-1] for v in y]
            out.append(('line', dates(np.array(x)), y))
        return out
    if op == 'mags_in_time':
        out = [('points', dates(np.asarray(kw['times'])), m.tolist())]
        if p.get('change'):
            x = [pd.Timestamp(int(x), 1, 1) if not hasattr(x, 'year') else x
                 for x in kw['mc_change_times']]
            x.append(pd.Timestamp(np.asarray(kw['times']).max()))
            out.append(('line', dates(np.array(x, 'M8[ns]')),
                        kw['mcs'] + kw['mcs'][-1:]))
        return out
    if op == 'space':
        return [('points', np.asarray(kw['longitudes']).tolist(),
                 np.asarray(kw['latitudes']).tolist())]
    if op == 'mc_vs_b':
        y, std = [], []
        for mc in kw['mcs']:
            e = kw['b_method']()
            a = {k: kw[k] for k in ('weights', 'times') if k in kw}
            y.append(float(e.calculate(m, mc, kw['delta_m'], **a)))
            std.append(float(e.std))
        x = kw['mcs'].tolist()
        return [('line', x, num(y)),
                band(x, y, std, norm.ppf(.5 + p['ci'] / 2))]
    x = kw.get('x_variable')
    t = np.asarray(kw['times'])
    mc = np.ones(len(m)) * kw['mc']
    if x is None:
        x = np.arange(len(m))
    x = np.asarray(x)
    if op == 'b_significant':
        y = []
        k = np.argsort(x)
        n = int((m >= mc - kw['delta_m'] / 2).sum())
        n_ms = kw['n_ms']
        if n_ms is None:
            n_ms = np.array(sorted({int(15 + i * (n / 15 - 15) / 9)
                                    for i in range(10)}))
        for n_m in n_ms:
            y.append(b_significant_1D(
                m[k], mc[k], kw['delta_m'], t[k], int(n_m),
                min_num=kw['min_num'], method=kw['method'],
                conservative=kw['conservative'])
                if n / n_m >= 15 else [np.nan] * 4)
        sig, mac, mu, std = np.array(y, float).T
        n_ms = np.asarray(n_ms)
        out = [('line', n_ms.tolist(), num(mac)),
               ('line', n_ms.tolist(), num(mu)),
               band(n_ms, mu, std, norm.ppf(1 - kw['p_threshold'] / 2))]
        red = sig < kw['p_threshold']
        if red.any():
            out.append(('line', n_ms[red].tolist(), num(mac[red])))
        return out
    k = np.argsort(x)
    if len(set(x.tolist())) < len(x) or len(set(t.tolist())) < len(t):
        return None
    k = k[m[k] >= mc[k] - kw['delta_m'] / 2]
    n_m = kw['n_m']
    y = [np.nan] * len(k)
    std = [np.nan] * len(k)
    for i in range(len(k) - n_m + 1):
        win = k[i:i + n_m]
        win = win[np.argsort(t[win])]
        e = kw['method']()
        b = e.calculate(m[win], mc[win].max(), kw['delta_m'])
        at = {'left': 0, 'midpoint': n_m // 2, 'right': n_m - 1}[p['tech']]
        if e.n >= kw['min_num']:
            y[i + at] = float(b)
            std[i + at] = float(e.std)
    return [('line', dates(x[k]), num(y)),
            band(dates(x[k]), y, std, norm.ppf(.5 + p['level'] / 2))]


def band(x, y, std, factor):
    lo = [a - factor * s for a, s in zip(y, std)]
    hi = [a + factor * s for a, s in zip(y, std)]
    return ('area', [list(v) for a, b, c in zip(x, lo, hi)
                     if np.isfinite([b, c]).all()
                     for v in ((a, b), (a, c))], None)


def same_area(have, want):
    def some(a, where):
        return any(close(a, b, 1e-7) for b in where)
    have = [v[i:i + 2] for paths in have for v in paths
            for i in range(0, len(v), 2)]
    return all(some(v, want) for v in have) and all(
        some([float(v[0]), float(v[1])], have) for v in want)


def must_draw(p, data):
    """Whether there is no reason to refuse the plot."""
    m = [e[4] * data['d'] for e in data['events'] if e[4] is not None]
    if p.get('bad') or not m:
        return False
    if p['op'] == 'cum_fmd' and p['b'] is not None:
        return max(m) > p['mc'] + (p['bin'] or data['d'])
    if p.get('dm') not in (None, 1):
        return False   # magnitudes may not be binned that way
    if p['op'] == 'mc_vs_b':
        return not p['weights']
    return p['op'] != 'b_significant' or p['n_ms'] is not None


def number(text):
    return float(text.split('{')[-1].rstrip('}$').replace(
        '\N{MINUS SIGN}', '-'))


def legend_sizes(ax, p, kw):
    """The sizes in the legend are those of their magnitudes."""
    lg = ax.get_legend()
    m = np.asarray(kw['magnitudes'], float)
    m = m[~np.isnan(m)]
    asked = kw['dot_labels']
    if (lg is not None) != (asked is not None and p['power'] != 0):
        raise Violation('legend', f'{p}: legend {lg}')
    if lg is None or not len(m):
        return
    if isinstance(asked, (list, np.ndarray)):
        if not any(m.min() < v < m.max() for v in asked):
            return
        texts = [t.get_text() for t in lg.get_texts()]
        for v in asked:
            if m.min() < v < m.max() and not any(
                    abs(number(t) - v) < .006 for t in texts):
                raise Violation('legend', f'{p}: {v} is missing in {texts}')
        for t in texts:
            if not any(abs(number(t) - v) < .006 for v in asked):
                raise Violation('legend', f'{p}: {t} is not in {asked}')
    if p['large'] <= p['small'] or m.min() == m.max() and isinstance(
            kw['dot_labels'], int):
        return
    if not lg.legend_handles:
        raise Violation('legend', f'{p}: no magnitude is labelled, '
                        f'magnitudes {m.min()} to {m.max()}')
    lo, hi = m.min(), m.max()
    span = p['large'] - p['small']
    for h, t in zip(lg.legend_handles, lg.get_texts()):
        v = number(t.get_text())
        have = h.get_markersize() ** 2
        # the label is rounded
        near = [p['small'] + span * max((x - lo) / (hi - lo), 0) ** p[
            'power'] if hi > lo else p['small']
            for x in (v - .006, v + .006)]
        if not near[0] - .03 * span <= have <= near[1] + .03 * span:
            raise Violation('legend', f'{p}: size {have} for {v}, '
                            f'magnitudes {lo} to {hi}')


def inside(ax, p, kw):
    """No event is outside of the map."""
    import cartopy.crs as ccrs
    x0, x1, y0, y1 = ax.get_extent(crs=ccrs.PlateCarree())
    for x, y, m in zip(*(np.asarray(kw[k], float) for k in (
            'longitudes', 'latitudes', 'magnitudes'))):
        if m == m and not (x0 - .001 <= x <= x1 + .001
                           and y0 - .001 <= y <= y1 + .001):
            raise Violation('extent', f'{p}: {x} {y} is not in '
                            f'{[x0, x1, y0, y1]}')


def rgb(c):
    return list(matplotlib.colors.to_rgb(c))


def style(p, kw, got, where):
    """Colours, sizes and labels are as asked for."""
    op = p['op']
    bad = None
    lines = got['lines']
    texts = []
    if op in ('cum_fmd', 'fmd'):
        pts = got['points'][0]
        c = rgb(p['color']) if p['color'] else pts[3][:3]
        if not close(pts[3][:3], c, 1e-5):
            bad = f'points are {pts[3]}'
        if p['size'] and set(pts[2]) != {p['size']}:
            bad = f'sizes are {pts[2]}'
        if lines and not close(rgb(lines[0][3]), rgb(p['color_line'])
                               if p['color_line'] else c, 3e-3):
            bad = f'the line is {lines[0][3]}'
        if p['label']:
            texts.append({'cum_fmd': 'cumulative', 'fmd': 'non cumulative'}[
                op] if p['label'] is True else p['label'])
        if lines and p['line']:
            texts.append(f'GR fit, b={kw["b_value"]:.2f}' if p['line'] is True
                         else p['line'])
        if p['grid'] != all(got['grid']):
            bad = f'grid {got["grid"]}'
    elif op == 'cum_count':
        if isinstance(p['color'], list):
            want = {f'Mc={mc:.2f}': c for mc, c in zip(p['mcs'], p['color'])}
        else:
            want = dict.fromkeys([ln[2] for ln in lines], p['color'])
        for ln in lines:
            c = want.get(ln[2])
            if ln[2] not in want or c and not close(rgb(ln[3]), rgb(c), 3e-3):
                bad = f'line {ln[2:]}'
        texts = [ln[2] for ln in lines]
    elif op in ('mags_in_time', 'space'):
        if p['color'] != 'depth':
            if not close(got['points'][0][3][:3], rgb(p['color']), 1e-5):
                bad = f'points are {got["points"][0][3]}'
        if lines and not close(rgb(lines[0][3]), rgb(p['color_line']), 3e-3):
            bad = f'line is {lines[0][3]}'
        texts = None
    else:
        c = rgb(p['color'])
        if lines and not close(rgb(lines[0][3]), c, 3e-3):
            bad = f'line is {lines[0][3]}'
        if op == 'b_significant' and sum(rgb(lines[1][3])) > sum(c):
            bad = f'second line is {lines[1][3]}'
        for f in got['shades']:
            # lighter or the same
            if not all(a >= b - 3e-3 for a, b in zip(f, c)) or (
                    op == 'mc_vs_b' and not close(f[:3], c, 3e-3)):
                bad = f'band is {f}'
        if p['label']:
            texts = [p['label']]
    if texts is not None and (got['legend'] or []) != texts:
        bad = f'legend {got["legend"]} instead of {texts}'
    if bad:
        raise Violation('style', f'{where} {p}: {bad}'[:800])


def judge(p, kw, ev, got, where):
    want = expected(p, kw, ev)
    if want is None:
        return False
    pts = list(got['points'])
    lines = list(got['lines'])
    for what, x, y in want:
        if what == 'area':
            # a band is drawn piece by piece; the vertices matter
            if not same_area(got['areas'], x):
                raise Violation('other-data', f'{where} {p}: band '
                                f'{got["areas"]} instead of {x}'[:1500])
            continue
        have = pts if what == 'points' else lines
        if not have:
            raise Violation('not-drawn', f'{where} {p}: {what} missing')
        have = have.pop(0)
        if p['op'] in ('mags_in_time', 'space') and what == 'points':
            m = np.asarray(kw['magnitudes'], float)
            known = [i for i, v in enumerate(m) if v == v]
            k = [i for i, v in enumerate(have[1]) if v != 'nan']
            size = [have[2][i] for i in k]
            if np.isnan(m).any():
                # without a magnitude there is nothing to draw
                x, y = ([v[i] for i in known] for v in (x, y))
                have = [[v[i] for i in k] for v in have[:2]]
            lo, hi = np.nanmin(m), np.nanmax(m)
            f = [(m[i] - lo) / (hi - lo) if hi > lo else 0 for i in known]
            large = p['large']
            if large <= p['small']:
                # some larger size is chosen
                large = max(size)
                if large <= p['small'] and hi > lo and p['power']:
                    raise Violation('size', f'{where} {p}: sizes {size}')
            want_s = [p['small'] + (large - p['small'])
                      * v ** p['power'] for v in f]
            if not close(size, want_s, 1e-7):
                raise Violation('size', f'{where} {p}: sizes {size} instead '
                                f'of {want_s}'[:1200])
        if y is None:
            y = have[1]
        if not close([have[0], have[1]], [num(x), num(y)], 1e-7):
            raise Violation('other-data', f'{where} {p}: '
                            f'{have[:2]} instead of {[x, y]}'[:1500])
    if lines and p['op'] != 'cum_fmd' or pts:
        raise Violation('other-data', f'{where} {p}: {lines + pts} is drawn '
                        'too'[:1500])
    return True


def run(scn, ctx):
    set_option('warnings', False)
    with np.errstate(all='ignore'), analyses.quiet(analyses.sink()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            _run(scn, ctx)
        finally:
            plt.close('all')


def one(cat, p, ctx, fail=None, exc=None):
    """(outcome, drawn, arguments)"""
    kw = shape(arguments(cat, p), p['form'])
    before = {k: plain(v) for k, v in kw.items()}
    new = p['ax'] == 'new'
    ax = None if new else axes(p)
    rc = dict(matplotlib.rcParams)
    figs = plt.get_fignums()
    ASKED.clear()
    rngseam.ambient(1)
    rs = rngseam.state()
    with sched.fail_at(fail, exc) as f:
        try:
            out = ('ok', call(cat, p, kw, ax))
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            if not isinstance(e, Exception) and not f.fired:
                raise
            out = ('raised', type(e).__name__)
    for k, v in kw.items():
        if plain(v) != before[k]:
            raise Violation('argument-changed', f'{p}: {k} was {before[k]}'
                            f' and is {plain(v)}'[:1200])
    if rngseam.state() != rs:
        raise Violation('randomness', f'{p} consumed random numbers')
    if dict(matplotlib.rcParams) != rc:
        raise Violation('settings', f'{p} changed matplotlib settings')
    if get_option('warnings') is not False:
        raise Violation('settings', f'{p} changed the options')
    if not new and plt.get_fignums() != figs:
        raise Violation('figure', f'{p} opened a figure of its own')
    d = None
    if out[0] == 'ok':
        if not new and out[1] is not ax:
            raise Violation('axes', f'{p} drew on other axes')
        if new and len(plt.get_fignums()) != len(figs) + 1:
            raise Violation('axes', f'{p} did not open a figure')
        if 'map' in p and ('resolution', p['res']) not in ASKED:
            raise Violation('map', f'{p}: asked for {ASKED}')
        if p.get('draw'):
            show(out[1], p)
            ctx.fault('map rendered')
        d = drawn(out[1])
    return out, d, kw, f, ax


def _run(scn, ctx):
    cat = analyses.catalog(scn['data'])
    ref_cat = analyses.catalog(scn['data'])
    snap = cats.snapshot(cat)
    first = {}
    done = 0
    last = None
    keep = []
    for k, p in enumerate(scn['ops']):
        where = f'op {k}'
        if p['op'] == 'analyse':
            analyses.perform(cat, p['p'])
            last = 'analysis'
            continue
        if p['op'] not in FUNC:
            continue
        exc = EXC.get(p.get('exc'), RuntimeError)
        out, d, kw, f, ax = one(cat, p, ctx, p.get('fail'), exc)
        if f.fired:
            ctx.fault(f'{exc.__name__} in a plot')
        ctx.log(k, p['op'], out[0], d)
        ctx.state(p['op'], p['form'], out[0], last)
        if cats.snapshot(cat) != snap:
            raise Violation('catalog-changed', f'{where} {p}: ' + str(
                cats.snap_diff(snap, cats.snapshot(cat))))
        for a, was in keep:
            if drawn(a) != was:
                raise Violation('other-axes', f'{where} {p} changed axes it '
                                'was not given')
        if f.fired:
            last = 'failed ' + p['op']
            continue
        key = repr(sorted((a, b) for a, b in p.items() if a not in (
            'fail', 'exc', 'form', 'ax')))
        if p['form'] == 'method' and p['op'] in METHODS:
            key = 'method' + key
        have = [out[0] if out[0] == 'ok' else out, d]
        if key in first and not close(have, first[key]):
            raise Violation('history', f'{where} {p}: {have} but '
                            f'{first[key]} before'[:1500])
        first[key] = have
        if out[0] != 'ok' and must_draw(p, scn['data']):
            raise Violation('not-drawn', f'{where} {p}: {out}')
        if out[0] == 'ok':
            if ax is not None:
                keep.append((ax, d))
            if p.get('bad'):
                raise Violation('accepted', f'{where} {p}')
            if p['form'] == 'method' and p['op'] == 'cum_fmd':
                # taken from the catalog
                kw = dict(kw, mc=cat.mc if kw['mc'] is None else kw['mc'],
                          fmd_bin=kw['fmd_bin'] or cat.delta_m)
            if p['form'] == 'method' and p['op'] == 'cum_count' and \
                    kw['delta_m'] is None:
                kw = dict(kw, delta_m=cat.delta_m)
            if d is not None:
                style(p, kw, d, where)
                if p['op'] == 'space' and out[1].get_legend():
                    legend_sizes(out[1], p, kw)
                if p['op'] == 'space' and not p.get('country'):
                    inside(out[1], p, kw)
                if judge(p, kw, scn['data']['events'], d, where):
                    ctx.probe(p['op'])
            if last:
                done += 1
        last = p['op']
    # permuted events give the same picture
    n = len(cat)
    if ref_cat['time'].is_unique:
        perm = np.random.default_rng(scn['perm']).permutation(n)
        other = ref_cat.iloc[perm]
        for p in scn['ops']:
            if p['op'] not in FUNC or 'fail' in p or p['op'] in (
                    'b_series', 'b_significant') and p.get('x') != 'time':
                continue
            if p['op'] == 'mc_vs_b' and p['method'] == 'positive' and \
                    not p['times']:
                continue
            a = one(ref_cat, p, ctx)
            b = one(other, p, ctx)
            if a[0][0] != b[0][0] or not close(ordered(a[1]),
                                               ordered(b[1]), 1e-7):
                raise Violation('order', f'{p}: {ordered(b[1])} for '
                                f'permuted events instead of '
                                f'{ordered(a[1])}'[:1500])
            ctx.fault('rows permuted')
            break
    ctx.steps += len(scn['ops'])
    if done:
        ctx.nontrivial = repr(scn)


def ordered(d):
    """Drawing with the points in order."""
    if d is None:
        return None
    d = dict(d)
    pts = []
    for g in d['points']:
        n = len(g[0])
        cols = [g[0], g[1]] + [c if c is not None and len(c) == n
                               else [None] * n for c in (g[2], g[4])]
        pts.append([sorted(map(list, zip(*cols)), key=str), g[5]])
    d['points'] = pts
    return d
