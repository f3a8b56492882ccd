"""C19 rate grids keep cells, times and types through every history."""
import copy
import io
import math
import pickle
import warnings

import numpy as np
import pandas as pd

from dst import qml, sched
from dst.core import Invalid, Violation
from seismostats import ForecastGRRateGrid, GRRateGrid

PROP = 'C19'
LEVEL = 'exploration'
RULE = ('A run performs up to ten operations on a pool of rate grids: '
        'derivations, combinations, time indices, statistics, changes in '
        'place, invalid and aborted ones, files and restarts; after each, '
        'every grid of the pool is compared with a model (plain frames, '
        'types, metadata, cells); non-trivial if at least two operations '
        'succeeded; distinct by the whole scenario.')
STATE = '(operation, type and levels before, type and levels after)'
COMPONENTS = {
    'real': ['GRRateGrid, ForecastGRRateGrid', 'pandas', 'pickle, csv'],
    'stub': ['files which lose their end in a crash', 'failures at any '
             'executed line of operations that are not in place']}
ASSUMPTIONS = [
    'Values of derived frames are those of pandas on plain frames.',
    'Which number a cell has is open: rows have the same number if and only '
    'if they have the same bounds.',
    'Operations by which pandas changes a copy in place give the type of '
    'the copy, that of their columns from the next operation on.',
    'Name and number of grids are not promised by GRRateGrid.concat.']
BUDGET = {'quick': dict(runs=6000, wall=80, recheck=25, shrink=60),
          'thorough': dict(runs=400000, wall=1200, recheck=200, shrink=120)}
BOUNDS = ['longitude_min', 'longitude_max', 'latitude_min', 'latitude_max',
          'depth_min', 'depth_max']
REQ = BOUNDS + ['a', 'b', 'mc']
BASE = ['number_events', 'b', 'mc', 'a', 'alpha']
META = ['name', 'starttime', 'endtime']
LEVELS = ['starttime', 'endtime', 'cell_id']
T0 = pd.Timestamp('2023-01-01')
EXTRA = ['number_events', 'alpha', 'note', 'other', 'b_s0', 'mc_s1']


def gen_grid(rng):
    n = rng.choice([0, 1, 2, 3, 4, 6, 8])
    cells = [[9. + .1 * rng.randrange(3), 10. + rng.randrange(2), 45.,
              46. + rng.choice([0, .5]), rng.choice([0., None, 5.]),
              rng.choice([10., None])] for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < .5:
        cells = [c[:4] + [0., 10.] for c in cells]
    cols = list(REQ)
    if rng.random() < .15:
        cols.remove(rng.choice(cols))
    cols += rng.sample(EXTRA, rng.choice([0, 1, 3]))
    if rng.random() < .5:
        cols.append('grid_id')
    rng.shuffle(cols)
    rows = [rng.choice(cells) for _ in range(n)]
    c = {}
    for k in cols:
        if k in BOUNDS:
            c[k] = [r[BOUNDS.index(k)] for r in rows]
        elif k == 'grid_id':
            c[k] = [rng.randrange(3) for _ in rows]
        elif k == 'note':
            c[k] = [rng.choice(['x', 'y', None]) for _ in rows]
        else:
            p = rng.choice([0, 0, .3, 1])
            c[k] = [None if rng.random() < p * .5 or p == 1 else
                    round(rng.uniform(-1, 5), 2) for _ in rows]
    s = rng.choice([None, 0, 1, 2, 5])
    return dict(columns=c, name=rng.choice([None, 'g', 'h']), start=s,
                end=None if s is None or rng.random() < .3 else s + 1,
                n_grids=rng.choice([None, 7]), index=rng.choice([
                    None, None, 'text', 'twice']))


DERIVE = ['mask', 'iloc', 'slice', 'head', 'sample', 'sort', 'sort_index',
          'copy', 'deepcopy', 'select', 'drop_cols', 'drop_rows', 'assign',
          'rename', 'dropna', 'dedup', 'fillna', 'group', 'query', 'swap',
          'strip', 'strip', 'time', 'time', 'time', 'nlargest', 'reset',
          'loc_time', 'xs', 'forecast', 'pickle', 'csv', 'csv', 'construct']
COPIES = ['assign', 'rename', 'forecast', 'reset']
CALC = ['isna', 'equal', 'where', 'positive', 'shifted', 'round', 'melt',
        'means', 'text', 'astype', 'map', 'transpose', 'compare']
COMBINE = ['concat', 'concat', 'own', 'own', 'own', 'own', 'merge', 'join',
           'wide']
INPLACE = ['set_col', 'set_at', 'del_col', 'sort_in', 'drop_in', 'strip_in',
           'set_meta', 'set_bound', 'rename_in', 'insert']
STATS = ['mean', 'median', 'max', 'min', 'sum', 'std', 'count']


def gen_op(rng):
    r = rng.random()
    o = dict(on=rng.randrange(6), c=rng.choice(REQ + EXTRA + ['grid_id']),
             x=rng.choice([0, 1, 2, 3, 5]), f=rng.random() < .5,
             w=rng.randrange(1000))
    if r < .4:
        o['op'] = rng.choice(DERIVE)
    elif r < .55:
        o['op'] = rng.choice(COMBINE)
        o['with'] = [rng.randrange(6) for _ in range(rng.choice([1, 1, 2]))]
    elif r < .65:
        o['op'] = rng.choice(CALC)
    elif r < .8:
        o['op'] = 'stats'
        o['agg'] = rng.choice(STATS)
        o['extra'] = {f's{i}': rng.choice(STATS) for i in range(
            rng.choice([0, 1, 2]))}
        o['call'] = rng.random() < .3
    elif r < .95:
        o['op'] = rng.choice(INPLACE)
    else:
        o['op'] = 'torn'
    if o['op'] not in INPLACE and rng.random() < .2:
        o['fail'] = rng.randint(1, rng.choice([4, 12, 30, 60]))
    return o


def gen(rng, tier):
    pool = [gen_grid(rng) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < .4:
        # the same grid at other times
        g = dict(copy.deepcopy(pool[0]), start=3, end=4)
        pool.append(g)
        pool[0].update(start=0, end=1)
    return dict(pool=pool, ops=[gen_op(rng) for _ in range(
        rng.randint(1, 10))])


class Obj:
    def __init__(self, real, frame, kind, meta, stale=False):
        self.real, self.frame, self.kind = real, frame, kind
        self.meta, self.stale = meta, stale


def kind_of(f):
    if not set(REQ) <= set(f.columns):
        return 'DataFrame'
    return 'ForecastGRRateGrid' if 'grid_id' in f.columns else 'GRRateGrid'


def stamp(days):
    return None if days is None else T0 + pd.Timedelta(days, 'D')


def build(spec):
    cols = spec['columns']
    n = len(next(iter(cols.values()), []))
    idx = {None: None, 'text': [f'c{i}' for i in range(n)],
           'twice': [i // 2 for i in range(n)]}[spec['index']]

    def frame():
        return pd.DataFrame({k: pd.Series(
            list(v), dtype=object if k == 'note' else int
            if k == 'grid_id' else float) for k, v in cols.items()}) \
            .set_axis(range(n) if idx is None else idx, axis=0)
    cls = ForecastGRRateGrid if 'grid_id' in cols else GRRateGrid
    meta = dict(name=spec['name'], starttime=stamp(spec['start']),
                endtime=stamp(spec['end']))
    kw = dict(meta)
    if cls is ForecastGRRateGrid:
        kw['n_grids'] = meta['n_grids'] = spec['n_grids']
    return Obj(cls(frame(), **kw), frame(), cls.__name__, meta)


def cell(x):
    return '~' if qml.is_missing(x) else repr(float(x)) if isinstance(
        x, (int, float, np.number)) else repr(x)


def values(f):
    return [(str(c), tuple(cell(x) for x in f.iloc[:, j].tolist()))
            for j, c in enumerate(f.columns)]


def labels(f):
    """Index without the numbers of cells."""
    if f.index.nlevels == 1:
        return [repr(x) for x in f.index]
    return [[repr(x) if k != 'cell_id' else None for k, x in zip(
        f.index.names, row)] for row in f.index]


def cells(f, where):
    """Rows have the same number if and only if they have the same bounds."""
    if 'cell_id' not in f.index.names or f.index.nlevels == 1 or not \
            set(REQ) <= set(f.columns):
        return
    ids = f.index.get_level_values('cell_id')
    rows = [tuple(cell(x) for x in r) for r in
            f[BOUNDS].itertuples(index=False)]
    pairs = set(zip(ids, rows))
    if len(pairs) != len(set(ids)) or len(pairs) != len(set(rows)):
        raise Violation('cells', f'{where}: numbers {list(ids)} of {rows}')


def check(o, where):
    r = o.real
    if type(r).__name__ != o.kind:
        raise Violation('type', f'{where}: {type(r).__name__} instead of '
                        f'{o.kind}, columns {list(r.columns)}')
    a, b = values(r), values(o.frame)
    if a != b:
        raise Violation('values', f'{where}: {a} instead of {b}'[:1500])
    if list(r.index.names) != list(o.frame.index.names) or \
            labels(r) != labels(o.frame):
        raise Violation('index', f'{where}: {list(r.index)} instead of '
                        f'{list(o.frame.index)}')
    if o.kind == 'DataFrame':
        return
    if not o.stale:
        cells(r, where)
    for k, want in o.meta.items():
        if k == 'n_grids' and o.kind != 'ForecastGRRateGrid' or \
                k in r.columns:
            continue
        v, want = ['missing' if qml.is_missing(x) else repr(x)
                   for x in (getattr(r, k, None), want)]
        if v != want:
            raise Violation('metadata', f'{where}: {k} is {v} instead of '
                            f'{want}')


# ------------------------------------------------------------- operations

def unary(df, o):
    op, c, x, f = o['op'], o['c'], o['x'], o['f']
    if op == 'mask':
        return df[df['a'] >= x]
    if op == 'query':
        return df.query(f'longitude_min >= {9 + x / 10}')
    if op == 'iloc':
        return df.iloc[[i for i in range(len(df) - 1, -1, -1)
                        if i % 3 != x % 3]]
    if op == 'slice':
        return df[x % 3:x]
    if op == 'head':
        return df.head(x)
    if op == 'sample':
        return df.sample(n=min(x, len(df)), random_state=o['w'])
    if op == 'sort':
        return df.sort_values(c, ascending=f, kind='stable')
    if op == 'sort_index':
        return df.sort_index(ascending=f, kind='stable')
    if op == 'copy':
        return df.copy()
    if op == 'deepcopy':
        return copy.deepcopy(df)
    if op == 'select':
        return df[[k for i, k in enumerate(df.columns)
                   if (o['w'] >> (i % 10)) & 1 or f and k in REQ]]
    if op == 'drop_cols':
        return df.drop(columns=[c])
    if op == 'drop_rows':
        return df.drop(index=list(df.index[:x]))
    if op == 'assign':
        return df.assign(**{c if c not in BOUNDS else 'new': x})
    if op == 'forecast':
        return df.assign(grid_id=x)
    if op == 'rename':
        return df.rename(columns={c: 'other2'})
    if op == 'reset':
        return df.reset_index(drop=True)
    if op == 'dropna':
        return df.dropna(subset=[c])
    if op == 'dedup':
        return df.drop_duplicates(subset=[c])
    if op == 'fillna':
        return df.fillna({'depth_min': 1.0, 'a': 2.0})
    if op == 'group':
        return [g for _, g in df.groupby('longitude_min')][-1]
    if op == 'nlargest':
        return df.nlargest(x, 'a')
    if op == 'swap':
        return df[list(df.columns)[::-1]]
    if op == 'loc_time':
        return df.loc[[stamp(x)]] if df.index.nlevels > 1 else df.iloc[:x]
    if op == 'xs':
        return df.xs(stamp(x), level='starttime', drop_level=f)
    if op == 'pickle':
        return pickle.loads(pickle.dumps(df))
    # calculations
    if op == 'isna':
        return df.isna() if f else df.notna()
    if op == 'equal':
        return df == df
    if op == 'where':
        return df.where(df.notna() if f else df[REQ].notna())
    if op == 'positive':
        df = df[[k for k in df.columns if k != 'note']]
        return df[df > x]
    if op == 'shifted':
        return df[[k for k in df.columns if k != 'note']] + x
    if op == 'round':
        return df.round(0)
    if op == 'melt':
        return df.melt()
    if op == 'means':
        return df[[k for k in df.columns if k != 'note']].mean().to_frame('m')
    if op == 'text':
        return pd.DataFrame({'text': df.to_csv(
            index=df.index.nlevels == 1).splitlines()})
    if op == 'astype':
        return df.astype(object) if f else df.fillna(-1).astype(str)
    if op == 'map':
        return df.map(lambda v: v)
    if op == 'transpose':
        return df.T.reset_index(drop=True)
    if op == 'compare':
        return df.isin([1., 0])
    raise Invalid(op)


def combine(a, others, o):
    op, b = o['op'], others[0]
    if op == 'concat':
        return pd.concat([a] + others)
    if op == 'merge':
        return a.merge(b[[c for c in b.columns if c in (
            'longitude_min', 'latitude_min') or c not in REQ]],
            on=['longitude_min', 'latitude_min'], suffixes=('', '_r'))
    if op == 'join':
        return a.join(b.add_suffix('_r').reset_index(drop=True))
    if op == 'wide':
        return pd.concat([a.reset_index(drop=True), b.add_prefix(
            'r_').reset_index(drop=True)], axis=1)
    raise Invalid(op)


def timed(f, meta, endtime):
    """add_time_index of the model."""
    keys = [meta['starttime']] + ([meta['endtime']] if endtime else [])
    if not set(REQ) <= set(f.columns) or any(
            qml.is_missing(k) for k in keys):
        return AttributeError
    if f.index.nlevels > 1:
        return None
    idx = [tuple(keys) + (i,) for i in f.index]
    names = LEVELS if endtime else ['starttime', 'cell_id']
    return f.set_axis(pd.MultiIndex.from_tuples(idx, names=names)
                      if idx else pd.MultiIndex.from_arrays(
                          [[]] * len(names), names=names), axis=0)


def own_concat(objs):
    """(frame, metadata) of GRRateGrid.concat, an error or None if open."""
    levels = {x.frame.index.nlevels for x in objs}
    if len(levels) > 1:
        return ValueError
    frames = [x.frame for x in objs]
    if levels == {1}:
        end = all(not qml.is_missing(x.meta.get('endtime')) for x in objs)
        frames = [timed(x.frame, x.meta, end) for x in objs]
        if any(f is AttributeError for f in frames):
            return AttributeError
    elif not levels <= {2, 3}:
        return None
    if any(list(f.index.names) != list(frames[0].index.names)
           for f in frames):
        return None
    f = pd.concat(frames)
    if not len(f) or not set(REQ) <= set(f.columns):
        return None
    meta = {}
    if 'starttime' in f.index.names:
        t = f.index.get_level_values('starttime')
        meta = dict(starttime=t.min(), endtime=f.index.get_level_values(
            'endtime').max() if 'endtime' in f.index.names else t.max())
    return f, meta


def inplace(df, o):
    op, c, x, f = o['op'], o['c'], o['x'], o['f']
    if op == 'set_col':
        df['a' if c in BOUNDS + ['note'] else c] = x
    elif op == 'set_at':
        df.iloc[x, list(df.columns).index('mc')] = 3.25
    elif op == 'set_bound':
        df.iloc[x, list(df.columns).index('longitude_max')] = 77.
    elif op == 'insert':
        df.insert(0, 'inserted', x)
    elif op == 'del_col':
        del df[c]
    elif op == 'sort_in':
        df.sort_values(c, inplace=True, ascending=f, kind='stable')
    elif op == 'drop_in':
        df.drop(columns=[c], inplace=True)
    elif op == 'rename_in':
        df.rename(columns={c: 'renamed'}, inplace=True)
    else:
        raise Invalid(op)


def attempt(fn, fail=None):
    with sched.fail_at(fail, MemoryError) as f:
        try:
            return ('ok', fn()), f
        except Violation:
            raise
        except Exception as e:
            return ('raised', e), f


# -------------------------------------------------------------- statistics

def aggregate(v, how):
    v = [x for x in v if x == x]
    if how == 'count':
        return float(len(v))
    if how == 'sum':
        return math.fsum(v)
    if not v or how == 'std' and len(v) < 2:
        return math.nan
    m = math.fsum(v) / len(v)
    if how == 'mean':
        return m
    if how == 'std':
        return math.sqrt(math.fsum((x - m) ** 2 for x in v) / (len(v) - 1))
    if how == 'median':
        v = sorted(v)
        k = len(v) // 2
        return v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2
    return {'max': max, 'min': min}[how](v)


FUNCS = {'mean': lambda s: s.mean(), 'median': lambda s: s.median(),
         'max': lambda s: s.max(), 'min': lambda s: s.min(),
         'sum': lambda s: s.sum(), 'std': lambda s: s.std(),
         'count': lambda s: s.count()}


def statistics(ob, o, where, ctx):
    f = ob.frame
    fn = FUNCS if o['call'] else {k: k for k in STATS}
    res, fl = attempt(lambda: ob.real.calculate_statistics(
        fn[o['agg']], {k: fn[v] for k, v in o['extra'].items()}),
        o.get('fail'))
    if fl.fired:
        ctx.fault('aborted operation')
        if res[0] == 'raised':
            return 0
    if f.index.nlevels > 1 and list(f.index.names) not in (
            LEVELS, ['starttime', 'cell_id']):
        return 0
    if not len(f) or not f[BOUNDS[:4]].notna().all(axis=None):
        return 0
    if res[0] == 'raised':
        raise Violation('operation-fails', f'{where}: {res[1]!r}')
    got = res[1]
    num = [c for c in f.columns if c != 'grid_id' and f[c].notna().any() and f[c].dtype.kind in 'if']
    groups = {}
    for i in range(len(f)):
        key = tuple(cell(f[b].iloc[i]) for b in BOUNDS)
        if f.index.nlevels > 1:
            key = tuple(repr(x) for n, x in zip(
                f.index.names, f.index[i]) if n != 'cell_id') + key
        groups.setdefault(key, []).append(i)
    want = {}
    for key, rows in groups.items():
        w = {c: aggregate([float(f[c].iloc[i]) for i in rows], o['agg'])
             for c in num if c not in BOUNDS}
        for suf, how in o['extra'].items():
            for c in BASE:
                if c in num and not (f'{c}_{suf}' in f.columns and f[
                        f'{c}_{suf}'].notna().any()):
                    w[f'{c}_{suf}'] = aggregate(
                        [float(f[c].iloc[i]) for i in rows], how)
        want[key] = w
    cols = sorted([b for b in BOUNDS if b in num] + list(
        next(iter(want.values()))))
    if sorted(got.columns) != cols:
        raise Violation('statistics', f'{where}: columns {list(got.columns)}'
                        f' instead of {cols}')
    have = {}
    for i in range(len(got)):
        key = tuple(cell(got[b].iloc[i]) if b in got else '~'
                    for b in BOUNDS)
        if f.index.nlevels > 1:
            key = tuple(repr(x) for n, x in zip(
                got.index.names, got.index[i]) if n != 'cell_id') + key
        if key in have:
            raise Violation('statistics', f'{where}: {key} twice')
        have[key] = {c: float(got[c].iloc[i]) for c in got.columns
                     if c not in BOUNDS}
    if set(have) != set(want):
        raise Violation('statistics', f'{where}: cells {sorted(have)} '
                        f'instead of {sorted(want)}')
    for key, w in want.items():
        for c, v in w.items():
            x = have[key][c]
            if (x != x) != (v != v) or abs(x - v) > 1e-9 * max(
                    1, abs(v)):
                raise Violation('statistics', f'{where}: {o["agg"]} {c} of '
                                f'{key} is {x} instead of {v}')
    if f.index.nlevels > 1:
        ids = got.index.get_level_values('cell_id')
        src = set(zip(f.index.get_level_values('cell_id'), [tuple(
            cell(x) for x in r) for r in f[BOUNDS].itertuples(index=False)]))
        for i, n in enumerate(ids):
            key = tuple(cell(got[b].iloc[i]) if b in got else '~'
                        for b in BOUNDS)
            if not ob.stale and (n, key) not in src:
                raise Violation('statistics', f'{where}: cell {n} {key}, '
                                f'cells {sorted(src)}')
    elif list(got.index) != list(range(len(got))):
        raise Violation('statistics', f'{where}: index {list(got.index)}')
    ctx.probe('statistics')
    return 1


# --------------------------------------------------------------------- run

def run(scn, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(scn, ctx)


def known(ob):
    return {k: v for k, v in ob.meta.items()
            if k != 'n_grids' or ob.kind == 'ForecastGRRateGrid'}


def derive(ob, o, pool):
    """(function on the real grid, expected) or None if not defined."""
    op = o['op']
    f, meta = ob.frame, dict(ob.meta)
    fam = ob.kind != 'DataFrame'
    if op == 'strip':
        if not fam:
            return None
        req = REQ + (['grid_id'] if ob.kind == 'ForecastGRRateGrid' else [])
        want = ('ok', f[[c for c in f.columns if c in req]]) if set(
            REQ) <= set(f.columns) else ('raised', AttributeError)
        return ob.real.strip, want, meta
    if op == 'time':
        if not fam or f.index.nlevels > 1 or not len(f):
            return None
        m = timed(f, ob.meta, o['f'])
        return (lambda: ob.real.add_time_index(o['f']),
                ('raised', m) if isinstance(m, type) else ('ok', m), meta)
    if op == 'own':
        objs = [ob] + [pool[i % len(pool)] for i in o['with']]
        if any(x.kind == 'DataFrame' or not x.frame.columns.is_unique
               for x in objs):
            return None
        m = own_concat(objs)
        if m is None:
            return None
        cls = type(ob.real) if o['f'] else GRRateGrid
        fn = lambda: cls.concat([x.real for x in objs])  # noqa
        if isinstance(m, type):
            return fn, ('raised', m), meta
        return fn, ('ok', m[0]), m[1], cls.__name__
    if op == 'construct':
        if not fam or kind_of(f) != ob.kind:
            return None
        t = dict(ob.meta)
        if f.index.nlevels > 1:
            if not len(f) or f.index.names[0] != 'starttime':
                return None
            s = f.index.get_level_values('starttime')
            t.update(starttime=s.min(), endtime=f.index.get_level_values(
                'endtime').max() if 'endtime' in f.index.names else s.max())
        return (lambda: type(ob.real)(pd.DataFrame(ob.real), **known(ob)),
                ('ok', f), t)
    if op == 'csv':
        # stored as text, read after a restart
        k = f.index.nlevels
        if not fam or kind_of(f) != ob.kind or not len(f) or k > 1 and \
                list(f.index.names) not in (LEVELS, ['starttime', 'cell_id']):
            return None
        if k == 1 and len({type(i) for i in f.index}) > 1:
            return None     # all text in a file

        def fn():
            text = ob.real.to_csv()
            df = pd.read_csv(io.StringIO(text), index_col=list(range(k)),
                             float_precision='round_trip', parse_dates=list(
                                 range(k - 1)), keep_default_na=True)
            return type(ob.real)(df, **known(ob))
        t = dict(ob.meta)
        if k > 1:
            s = f.index.get_level_values('starttime')
            t.update(starttime=s.min(), endtime=f.index.get_level_values(
                'endtime').max() if k == 3 else s.max())
        return fn, ('ok', f), t
    if op in COMBINE:
        others = [pool[i % len(pool)] for i in o['with']]
        if any(not x.frame.columns.is_unique for x in others):
            return None
        (st, m), _ = attempt(lambda: combine(
            f.copy(), [x.frame.copy() for x in others], o))
        return lambda: combine(ob.real, [x.real for x in others], o), (
            st, m), meta
    (st, m), _ = attempt(lambda: unary(f.copy(), o))
    return lambda: unary(ob.real, o), (st, m), meta


def _run(scn, ctx):
    pool = []
    for k, spec in enumerate(scn['pool']):
        o = build(spec)
        check(o, f'new grid {k}')
        pool.append(o)
    n_ok = 0
    for k, o in enumerate(scn['ops']):
        ob = pool[o['on'] % len(pool)]
        op = o['op']
        where = f'op {k} {op} on {o["on"] % len(pool)}'
        fam = ob.kind != 'DataFrame'
        new = None
        if not ob.frame.columns.is_unique:
            continue
        if op in INPLACE:
            out = run_inplace(ob, o, where)
            ctx.state(op, ob.kind, out)
            n_ok += out == 'ok'
        elif op == 'stats':
            if ob.kind != 'ForecastGRRateGrid' or ob.stale or not set(
                    REQ + ['grid_id']) <= set(ob.frame.columns):
                continue
            n_ok += statistics(ob, o, where, ctx)
        elif op == 'torn':
            data = pickle.dumps(ob.real)
            (st, _), _ = attempt(lambda: pickle.loads(
                data[:len(data) * o['x'] // 6]))
            if st == 'ok':
                raise Violation('torn-file-read', where)
            ctx.fault('torn write')
        else:
            d = derive(ob, o, pool)
            if d is None or d[1][0] == 'ok' and not (isinstance(
                    d[1][1], pd.DataFrame) and d[1][1].columns.is_unique):
                continue
            fn, want, meta = d[:3]
            res, f = attempt(fn, o.get('fail'))
            if f.fired:
                ctx.fault('aborted operation')
            if res[0] == 'raised':
                if want[0] == 'ok' and not f.fired:
                    raise Violation('operation-fails', f'{where}: '
                                    f'{res[1]!r}')
                if isinstance(want[1], type) and not f.fired and not \
                        isinstance(res[1], want[1]):
                    raise Violation('error', f'{where}: {res[1]!r} instead '
                                    f'of {want[1].__name__}')
                ctx.fault('invalid operation', not f.fired)
            elif want[0] == 'raised':
                raise Violation('no-error', f'{where}: no {want[1]!r}')
            elif op in CALC:
                # only values are promised for calculations
                a, b = values(pd.DataFrame(res[1])), values(want[1])
                if a != b:
                    raise Violation('values', f'{where}: {a} instead of '
                                    f'{b}'[:1500])
                n_ok += 1
            else:
                real, m = res[1], want[1]
                kind = d[3] if len(d) > 3 else kind_of(m)
                if not fam or not set(REQ) <= set(ob.frame.columns):
                    # had lost its required columns before
                    real, kind, meta = pd.DataFrame(real), 'DataFrame', {}
                elif op in COPIES and isinstance(real, GRRateGrid):
                    real = real.copy()
                elif op == 'pickle' or op == 'deepcopy':
                    kind = type(ob.real).__name__ \
                        if op == 'pickle' else kind
                if kind == 'ForecastGRRateGrid' and \
                        (ob.kind != 'ForecastGRRateGrid' or op in COPIES
                         and 'grid_id' not in ob.frame):
                    meta.pop('n_grids', None)
                new = Obj(real, m.copy(), kind, meta,
                          stale=ob.stale and op == 'pickle')
                check(new, where)
                n_ok += 1
                new.real = new.real.copy()
                if new.kind != 'DataFrame':
                    new.kind = kind_of(new.frame)
                if 'cell_id' in new.frame.index.names and \
                        new.frame.index.nlevels > 1:
                    # numbers of cells are those of the grid
                    new.frame.index = new.real.index
                ctx.state(op, ob.kind, ob.frame.index.nlevels, new.kind,
                          new.frame.index.nlevels)
        for j, x in enumerate(pool):
            if x.frame.columns.is_unique:
                check(x, f'{where}: grid {j} of the pool')
        if new is not None and len(new.frame) < 60:
            if len(pool) < 6:
                pool.append(new)
            else:
                pool[o['w'] % 6] = new
        ctx.log(k, op, [(x.kind, len(x.frame)) for x in pool])
        ctx.steps += 1
    ctx.probe('operations', n_ok)
    if n_ok > 1:
        ctx.nontrivial = repr(scn)


def run_inplace(ob, o, where):
    op = o['op']
    fam = ob.kind != 'DataFrame'
    if op == 'set_meta':
        if not fam:
            return 'n/a'
        k = META[o['x'] % 3]
        v = 'renamed' if k == 'name' else stamp(o['x'])
        setattr(ob.real, k, v)
        ob.meta[k] = v
        return 'ok'
    if op == 'strip_in':
        if not fam:
            return 'n/a'
        req = REQ + (['grid_id'] if ob.kind == 'ForecastGRRateGrid' else [])
        res, _ = attempt(lambda: ob.real.strip(inplace=True))
        if not set(REQ) <= set(ob.frame.columns):
            if res[0] != 'raised':
                raise Violation('no-error', where)
            return 'raised'
        if res[0] == 'raised' or res[1] is not None:
            raise Violation('operation-fails', f'{where}: {res[1]!r}')
        ob.frame = ob.frame[[c for c in ob.frame.columns if c in req]].copy()
        return 'ok'
    f = ob.frame.copy()
    (st, m), _ = attempt(lambda: inplace(f, o))
    (st2, m2), _ = attempt(lambda: inplace(ob.real, o))
    if st != st2:
        raise Violation('operation-fails', f'{where}: {m2!r} {m!r}')
    if st == 'raised':
        return 'raised'
    ob.frame = f
    if op == 'set_bound':
        ob.stale = True
    return 'ok'
