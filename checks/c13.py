"""C13 catalog metadata and types survive every history of operations."""
import copy
import datetime as dt
import os
import pickle
import warnings

import numpy as np
import pandas as pd
import shapely

from dst import cats, disk, qml, sched
from dst.core import Invalid, Violation
from seismostats import Catalog, ForecastCatalog

PROP = 'C13'
LEVEL = 'exploration'
RULE = ('A run performs up to twelve operations on a pool of catalogs: '
        'derivations, combinations, changes in place, invalid and aborted '
        'ones, storing and restarts; after each, every object of the pool '
        'is compared with a model (plain frames, types and metadata); '
        'non-trivial if at least two operations succeeded; distinct by the '
        'whole scenario.')
STATE = '(operation, type before, type after, failed or not)'
COMPONENTS = {
    'real': ['Catalog, ForecastCatalog', 'pandas', 'pickle'],
    'stub': ['storage (files which lose their end in a crash)', 'failures '
             'at any executed line of operations that are not in place']}
ASSUMPTIONS = [
    'Values of derived frames are those of pandas on plain frames, followed '
    'by the documented normalisation of columns.',
    'Operations by which pandas changes a copy in place (rename, assign, '
    'reset_index, ...) give the type of the copy, that of their columns '
    'from the next operation on.',
    'Slices and single columns are views by the rules of pandas; changes '
    'through them are not looked at.']
BUDGET = {'quick': dict(runs=9000, wall=90, recheck=25, shrink=60),
          'thorough': dict(runs=500000, wall=1200, recheck=200, shrink=120)}
REQ = ['longitude', 'latitude', 'depth', 'time', 'magnitude',
       'magnitude_type']
NUM = ['magnitude', 'latitude', 'longitude', 'depth', 'associatedphasecount',
       'usedphasecount', 'associatedstationcount', 'usedstationcount',
       'standarderror', 'azimuthalgap', 'secondaryazimuthalgap',
       'maximumdistance', 'minimumdistance', 'mediandistance']
TXT = ['magnitude_type', 'event_type']
WORDS = ['', 'nan', 'NaN', 'none', 'None', 'na', 'Na', 'NA', 'null', 'Null',
         'NULL']
META = cats.META
UNC = ('_uncertainty', '_lowerUncertainty', '_upperUncertainty',
       '_confidenceLevel')
IDS = ('eventID', 'originID', 'magnitudeID')
POLY = shapely.Polygon([(5, 44), (11, 44), (11, 48)])
EXTRA = ['event_type', 'weight', 'magnitude_uncertainty', 'eventID',
         'originID', 'magnitudeID', 'azimuthalgap', 'standarderror',
         'magnitude_mb', 'magnitude_mb_uncertainty', 'depth_confidenceLevel',
         'magnitude_mb_magnitudeID', 'label', 'usedphasecount',
         'longitude_lowerUncertainty', 'uncertainty_note',
         'magnitudeID_note', 'magnitude_mb_type']


def gen_value(rng, col, i):
    if col in ('magnitude_type', 'event_type'):
        return rng.choice(['ML', 'Mw', 'mb', None] + WORDS)
    if col.endswith('ID') or col in ('label', 'uncertainty_note',
                                     'magnitudeID_note',
                                     'magnitude_mb_type'):
        return rng.choice([f'x/{i}', 'x/0', None, 'nan'])
    if col == 'catalog_id':
        return rng.randrange(3)
    if col == 'weight':
        return rng.choice([1., 2., .5])
    v = rng.choice([round(rng.uniform(0, 9), 2), float(rng.randrange(9)),
                    rng.randrange(9), None])
    if col in NUM and rng.random() < .06:
        return rng.choice(['1.5', '7', 'x', '', 'nan', '1e400'])
    return v


def gen_time(rng):
    return dt.datetime(2000, 1, 1).isoformat() if rng.random() < .1 else (
        dt.datetime(1990, 1, 1) + dt.timedelta(
            microseconds=rng.randrange(10 ** 15))).isoformat()


def gen_cat(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    cols = list(REQ)
    if rng.random() < .2:
        cols.remove(rng.choice(cols))
    cols += rng.sample(EXTRA, rng.choice([0, 2, 5]))
    if rng.random() < .3:
        cols.append('catalog_id')
    rng.shuffle(cols)
    c = {}
    for k in cols:
        if k == 'time':
            c[k] = [None if rng.random() < .05 else gen_time(rng)
                    for _ in range(n)]
        else:
            c[k] = [gen_value(rng, k, i) for i in range(n)]
    meta = {}
    for k, v in (('name', 'cat'), ('mc', 1.5), ('b_value', .9),
                 ('a_value', 3.), ('delta_m', .1),
                 ('starttime', '2001-02-03'), ('endtime', '2010-01-01'),
                 ('bounding_polygon', 'P'), ('depth_min', 0.),
                 ('depth_max', 30.), ('n_catalogs', 5)):
        if rng.random() < .6:
            meta[k] = v if not isinstance(v, float) else \
                round(rng.uniform(.1, 3), 2)
            if k == 'name':
                meta[k] = f'cat{rng.randrange(99)}'
    return dict(columns=c, meta=meta, index=rng.choice([
        None, None, [5, 3, 9, 1, 0, 2, 7, 8], [1, 1, 2, 2, 3, 3, 4, 4],
        ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']]))


DERIVE = ['mask', 'mask', 'query', 'iloc', 'slice', 'head', 'tail', 'sample',
          'sort', 'sort', 'sort_index', 'reset_index', 'set_index', 'copy',
          'deepcopy', 'select', 'select', 'drop_cols', 'drop_cols',
          'drop_rows', 'assign', 'rename', 'dropna', 'dedup', 'fillna',
          'reindex', 'group', 'nlargest', 'round', 'replace', 'astype',
          'loc', 'add_prefix', 'where', 'isel_bool', 'swap',
          'strip', 'strip', 'bin', 'bin', 'bin', 'drop_unc', 'drop_unc',
          'drop_ids', 'drop_ids', 'forecast', 'shift', 'explode', 'insert_copy',
          'isna', 'dropna_all', 'equal', 'transpose', 'rows', 'corr',
          'isna_sum', 'melt', 'map', 'combine_first', 'ffill', 'isin']
COPIES = ['rename', 'add_prefix', 'assign', 'forecast', 'reset_index',
          'set_index']
CALC = ['isna', 'equal', 'transpose', 'corr', 'isna_sum', 'melt', 'map',
        'isin', 'rows', 'combine_first', 'explode']
COMBINE = ['concat', 'concat', 'concat_ignore', 'merge', 'merge', 'join',
           'concat_wide', 'concat3', 'merge_index']
INPLACE = ['set_col', 'set_col', 'set_scalar', 'del_col', 'pop', 'set_loc',
           'set_at', 'sort_in', 'reset_in', 'drop_in', 'rename_in',
           'strip_in', 'bin_in', 'bin_in', 'set_meta', 'set_meta',
           'insert_col', 'dropna_in', 'set_columns', 'set_index_attr']


def gen_op(rng):
    r = rng.random()
    o = dict(on=rng.randrange(6), c=rng.choice(REQ + EXTRA[:8]),
             x=rng.choice([0, 1, 2, 3, 5]), f=rng.random() < .5,
             c2=rng.choice(REQ + EXTRA), w=rng.randrange(1000))
    if r < .5:
        o['op'] = rng.choice(DERIVE)
    elif r < .65:
        o['op'] = rng.choice(COMBINE)
        o['with'] = rng.randrange(6)
    elif r < .9:
        o['op'] = rng.choice(INPLACE)
    else:
        o['op'] = rng.choice(['store', 'store', 'crash', 'load', 'pickle'])
        o['torn'] = rng.choice([None, None, 0, rng.random()])
    if o['op'] not in INPLACE and rng.random() < .2:
        o['fail'] = rng.randint(1, rng.choice([4, 12, 30, 60]))
    if o['op'] in ('bin', 'bin_in', 'set_meta'):
        o['d'] = rng.choice([None, .1, .5, .2, 1.0, .1])
        o['k'] = rng.choice(META)
    return o


def gen(rng, tier):
    return dict(pool=[gen_cat(rng) for _ in range(rng.choice([1, 2, 2, 3]))],
                ops=[gen_op(rng) for _ in range(rng.randint(1, 12))])


# ------------------------------------------------------------------ model

def is_missing(x):
    return qml.is_missing(x)


def normal(f):
    """Documented normalisation of the columns of a catalog."""
    f = f.copy()
    for k in NUM:
        if k in f.columns:
            f[k] = pd.to_numeric(f[k], errors='coerce')
    if 'time' in f.columns and f['time'].dtype.kind != 'M':
        try:
            f['time'] = pd.to_datetime(f['time'], format='ISO8601')
        except (ValueError, TypeError):
            pass
    for k in TXT:
        if k in f.columns:
            f[k] = pd.Series([None if isinstance(x, str) and x in WORDS
                              else x for x in f[k]], index=f.index,
                             dtype=f[k].dtype)
    return f


class Obj:
    """A catalog and what it should be."""

    def __init__(self, real, frame, kind, meta):
        self.real, self.frame, self.kind, self.meta = real, frame, kind, meta


def kind_of(frame):
    if 'magnitude' not in frame.columns:
        return 'DataFrame'
    return 'ForecastCatalog' if 'catalog_id' in frame.columns else 'Catalog'


def build(spec):
    cols = {}
    for k, v in spec['columns'].items():
        if k == 'time':
            cols[k] = pd.to_datetime(pd.Series(
                [pd.NaT if x is None else pd.Timestamp(x) for x in v],
                dtype='datetime64[ns]')).values
        else:
            cols[k] = v
    n = len(next(iter(spec['columns'].values()), []))
    idx = spec['index']
    if idx is not None:
        idx = (list(idx) + list(range(100, 200)))[:n]
    meta = dict(spec['meta'])
    for k in ('starttime', 'endtime'):
        if meta.get(k):
            meta[k] = pd.Timestamp(meta[k])
    if meta.get('bounding_polygon'):
        meta['bounding_polygon'] = POLY
    f = pd.DataFrame(cols, index=idx)
    if f.columns.empty:
        f = pd.DataFrame(columns=REQ)
    cls = ForecastCatalog if 'catalog_id' in f.columns else Catalog
    if cls is Catalog:
        meta.pop('n_catalogs', None)
    # an independent frame for the model
    real = cls(pd.DataFrame(copy.deepcopy(cols), index=idx), **meta)
    return Obj(real, normal(f), cls.__name__, meta)


def values(f):
    out = []
    for j, c in enumerate(f.columns):
        s = cats.column(f, j)
        out.append((str(c), s.dtype.kind if s.dtype.kind in 'OM'
                    and len(s) else 'n',
                    tuple('~' if is_missing(x) else (
                        repr(float(x)) if isinstance(x, (
                            int, float, np.number)) else repr(x))
                        for x in s.tolist())))
    return out


def check(o, where):
    r = o.real
    if type(r).__name__ != o.kind:
        raise Violation('type', f'{where}: {type(r).__name__} instead of '
                        f'{o.kind}, columns {list(r.columns)}')
    a, b = values(r), values(o.frame)
    if a != b:
        if [x[0] for x in a] != [x[0] for x in b]:
            raise Violation('columns', f'{where}: {[x[0] for x in a]} '
                            f'instead of {[x[0] for x in b]}')
        bad = next((x, y) for x, y in zip(a, b) if x != y)
        raise Violation('values', f'{where}: {bad[0]} instead of {bad[1]}')
    if list(map(repr, r.index)) != list(map(repr, o.frame.index)):
        raise Violation('index', f'{where}: {list(r.index)} instead of '
                        f'{list(o.frame.index)}')
    if o.kind == 'DataFrame':
        return
    for k in META + ['n_catalogs']:
        v = r.__dict__.get(k) if k in r.columns else getattr(r, k, None)
        want = o.meta.get(k) if k != 'n_catalogs' \
            or o.kind == 'ForecastCatalog' else None
        v, want = ['missing' if is_missing(x) else repr(x)
                   for x in (v, want)]
        if v != want:
            raise Violation('metadata', f'{where}: {k} is {v} instead of '
                            f'{want}')


# ------------------------------------------------------------- operations

def unary(df, o):
    """Operations of pandas; the same on catalogs and plain frames."""
    op, c, x, f = o['op'], o['c'], o['x'], o['f']
    c2 = o['c2'] if o['c2'] != 'time' else 'label'
    if op == 'assign' and c == 'time':
        c = 'weight'
    if op == 'mask':
        return df[df['magnitude'] >= x]
    if op == 'query':
        return df.query(f'magnitude >= {x}')
    if op == 'loc':
        return df.loc[df['depth'] > x, [k for k in df.columns if k != c]]
    if op == 'isel_bool':
        return df.iloc[[i % 2 == x % 2 for i in range(len(df))]]
    if op == 'iloc':
        return df.iloc[[i for i in range(len(df) - 1, -1, -1)
                        if i % 3 != x % 3]]
    if op == 'slice':
        return df[x % 3:x]
    if op == 'head':
        return df.head(x)
    if op == 'tail':
        return df.tail(x)
    if op == 'sample':
        return df.sample(n=min(x, len(df)), random_state=o['w'])
    if op == 'sort':
        return df.sort_values(c, ascending=f, kind='stable')
    if op == 'sort_index':
        return df.sort_index(ascending=f, kind='stable')
    if op == 'reset_index':
        return df.reset_index(drop=f)
    if op == 'set_index':
        return df.set_index(c, drop=f)
    if op == 'copy':
        return df.copy()
    if op == 'insert_copy':
        return df.copy(deep=True)
    if op == 'deepcopy':
        return copy.deepcopy(df)
    if op == 'select':
        keep = [k for i, k in enumerate(df.columns)
                if (o['w'] >> (i % 10)) & 1 or k == 'magnitude' and f]
        return df[keep]
    if op == 'drop_cols':
        return df.drop(columns=[c])
    if op == 'drop_rows':
        return df.drop(index=list(df.index[:x]))
    if op == 'assign':
        return df.assign(**{c: df['depth']})
    if op == 'rename':
        return df.rename(columns={c: c2 if f else 'other'})
    if op == 'dropna':
        return df.dropna(subset=[c])
    if op == 'dedup':
        return df.drop_duplicates(subset=[c])
    if op == 'fillna':
        return df.fillna({'depth': 1.0, 'magnitude': 2.0})
    if op == 'reindex':
        if f:
            return df.reindex(list(df.index)[::-1])
        return df.reindex(columns=REQ)
    if op == 'group':
        return [g for _, g in df.groupby('magnitude_type')][0]
    if op == 'nlargest':
        return df.nlargest(x, 'magnitude')
    if op == 'round':
        return df.round(0)
    if op == 'replace':
        return df.replace({'ML': 'nan' if f else 'Mw'})
    if op == 'astype':
        return df.astype({c: object})
    if op == 'add_prefix':
        return df.add_prefix('magnitude_' if f else '')
    if op == 'where':
        return df.where(df['depth'] > x)
    if op == 'swap':
        return df[list(df.columns)[::-1]]
    if op == 'shift':
        return df.shift(1) if f else df.iloc[::-1]
    if op == 'explode':
        return df.explode(c)
    if op == 'isna':
        return df.isna() if f else df.notna()
    if op == 'dropna_all':
        return df.dropna(how='any' if f else 'all')
    if op == 'equal':
        return df == df if f else df.eq(df.iloc[0])
    if op == 'transpose':
        return df.T
    if op == 'rows':
        return df.apply(lambda r: r, axis=1) if f else df.iloc[
            df.apply(lambda r: r['magnitude'], axis=1).argsort()]
    if op == 'corr':
        return df[['magnitude', 'depth']].corr() if f else df.describe()
    if op == 'isna_sum':
        return df.isna().sum().to_frame('n')
    if op == 'melt':
        return df.melt()
    if op == 'map':
        return df.map(lambda v: v)
    if op == 'combine_first':
        return df.combine_first(df.iloc[:x])
    if op == 'ffill':
        return df.ffill()
    if op == 'isin':
        return df.isin([1.0, 'ML'])
    raise Invalid(op)


def own(real, o):
    """Methods of the catalog."""
    op = o['op']
    if op == 'strip':
        return real.strip()
    if op == 'bin':
        return real.bin_magnitudes(o['d'])
    if op == 'drop_unc':
        return real.drop_uncertainties()
    if op == 'drop_ids':
        return real.drop_ids()
    raise Invalid(op)


def own_model(ob, o):
    """(frame, metadata) after a method, or an exception type."""
    f, meta, op = ob.frame, dict(ob.meta), o['op'].removesuffix('_in')
    req = REQ + (['catalog_id'] if ob.kind == 'ForecastCatalog' else [])
    if op == 'strip':
        if not set(req) <= set(f.columns):
            return AttributeError
        return f[[c for c in f.columns if c in req]], meta
    if op == 'bin':
        if 'magnitude' not in f.columns:
            return AttributeError
        d = o['d'] if o['d'] is not None else meta.get('delta_m')
        if d is None:
            return ValueError
        g = f.copy()
        m = pd.to_numeric(g['magnitude'], errors='coerce')
        g['magnitude'] = [half_up(x, d) for x in m]
        if len(g):
            g['magnitude'] = g['magnitude'].astype(float)
        return g, dict(meta, delta_m=d)
    suf = UNC if op == 'drop_unc' else IDS
    return f[[c for c in f.columns if not str(c).endswith(suf)]], meta


def half_up(x, d):
    if is_missing(x):
        return np.nan
    k = float(x) / d
    # nearest bin, upper one for ties
    return float(round(np.floor(k + .5 + 1e-9) * d, 6))


def combine(a, b, o):
    op = o['op']
    if op == 'concat':
        return pd.concat([a, b])
    if op == 'concat3':
        return pd.concat([a, b, a])
    if op == 'concat_ignore':
        return pd.concat([a, b], ignore_index=True)
    if op == 'concat_wide':
        return pd.concat([a, b.add_prefix('r_')], axis=1)
    if op == 'merge':
        on = o['c']
        return pd.merge(a, b.drop(columns=[
            c for c in REQ if c != on and o['f'] and c in b]), on=on,
            how=['inner', 'left', 'outer'][o['x'] % 3])
    if op == 'merge_index':
        return a.merge(b, left_index=True, right_index=True,
                       suffixes=('', '_r'))
    if op == 'join':
        return a.join(b, rsuffix='_r')
    raise Invalid(op)


def inplace(df, o, row=None):
    op, c, x, f = o['op'], o['c'], o['x'], o['f']
    if op == 'set_col' and c == 'time':
        df[c] = [f'2005-01-{i % 28 + 1:02}T00:00:00.5' if f else
                 pd.Timestamp('2005-01-01') for i in range(len(df))]
        return
    if op == 'set_col':
        df[c] = np.arange(len(df)) * .5 if c in NUM or o['w'] % 2 else [
            ['ML', 'Mw', None][i % 3] for i in range(len(df))]
        return
    if op == 'set_scalar':
        df[o['c2']] = x if o['c2'] != 'time' else pd.Timestamp('2005-05-05')
    elif op == 'insert_col':
        df.insert(0, 'inserted', x)
    elif op == 'del_col':
        del df[c]
    elif op == 'pop':
        df.pop(c)
    elif op == 'set_loc':
        df.loc[df['magnitude'] > x, 'depth'] = 99.5
    elif op == 'set_at':
        df.iloc[x, list(df.columns).index('magnitude')] = 3.25
    elif op == 'sort_in':
        df.sort_values(c, inplace=True, ascending=f, kind='stable')
    elif op == 'reset_in':
        df.reset_index(inplace=True, drop=True)
    elif op == 'drop_in':
        df.drop(columns=[c], inplace=True)
    elif op == 'rename_in':
        df.rename(columns={c: 'renamed'}, inplace=True)
    elif op == 'dropna_in':
        df.dropna(subset=[c], inplace=True)
    elif op == 'set_columns':
        df.columns = [k if k != c else 'changed' for k in df.columns]
    elif op == 'set_index_attr':
        df.index = [f'r{i}' for i in range(len(df))]
    else:
        raise Invalid(op)


def attempt(fn, fail=None):
    with sched.fail_at(fail, MemoryError) as f:
        try:
            return ('ok', fn()), f
        except Violation:
            raise
        except Exception as e:
            return ('raised', e), f


def disjoint(f):
    return f.columns.is_unique


def run(scn, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(scn, ctx)


def _run(scn, ctx):
    pool = []
    for k, spec in enumerate(scn['pool']):
        o = build(spec)
        check(o, f'new catalog {k}')
        pool.append(o)
    stored = []            # (path, model) of completely stored catalogs
    n_ok = 0
    for k, o in enumerate(scn['ops']):
        if not pool:
            return
        i = o['on'] % len(pool)
        ob = pool[i]
        op = o['op']
        where = f'op {k} {op} on {i}'
        fam = ob.kind != 'DataFrame'
        new, res = None, None
        if op in INPLACE:
            out = run_inplace(ob, o, where)
            if ob.kind != 'DataFrame' and disjoint(ob.frame) \
                    and values(ob.real) == values(normal(ob.frame)):
                # changes in place may normalise, too
                ob.frame = normal(ob.frame)
            ctx.state(op, ob.kind, out)
            n_ok += out == 'ok'
        elif op in ('store', 'crash', 'load'):
            pool, n = run_storage(pool, ob, o, stored, where, ctx)
            n_ok += n
        else:
            if op == 'pickle':
                res, f = attempt(lambda: pickle.loads(pickle.dumps(ob.real)),
                                 o.get('fail'))
                want = ('ok', ob.frame.copy(), dict(ob.meta), ob.kind)
            elif op == 'forecast':
                if not fam or 'catalog_id' in ob.frame.columns:
                    continue
                res, f = attempt(lambda: ob.real.assign(
                    catalog_id=o['x']), o.get('fail'))
                want = ('ok', ob.frame.assign(catalog_id=o['x']),
                        dict(ob.meta))
            elif op in ('strip', 'bin', 'drop_unc', 'drop_ids'):
                if not fam or not disjoint(ob.frame):
                    continue
                m = own_model(ob, o)
                want = ('raised', m) if isinstance(m, type) else (
                    ('ok',) + m)
                res, f = attempt(lambda: own(ob.real, o), o.get('fail'))
            elif op in COMBINE:
                other = pool[o['with'] % len(pool)]
                if not disjoint(ob.frame) or not disjoint(other.frame):
                    continue
                if any(x.kind != 'DataFrame' and values(x.frame) != values(
                        normal(x.frame)) for x in (ob, other)):
                    # not normalised since a change in place; when this
                    # happens while combining is open
                    continue
                (st, m), _ = attempt(lambda: combine(
                    ob.frame.copy(), other.frame.copy(), o))
                want = (st, m, dict(ob.meta))
                res, f = attempt(lambda: combine(ob.real, other.real, o),
                                 o.get('fail'))
            else:
                if not disjoint(ob.frame):
                    continue
                (st, m), _ = attempt(lambda: unary(ob.frame.copy(), o))
                want = (st, m, dict(ob.meta))
                res, f = attempt(lambda: unary(ob.real, o), o.get('fail'))
            if f.fired:
                ctx.fault('aborted operation')
            if want[0] == 'ok' and isinstance(want[1], pd.DataFrame) \
                    and not disjoint(want[1]):
                continue
            if res[0] == 'raised':
                if want[0] == 'ok' and not f.fired:
                    raise Violation('operation-fails', f'{where}: '
                                    f'{res[1]!r}')
                ctx.fault('invalid operation', not f.fired)
                ctx.state(op, ob.kind, 'raised')
            elif want[0] == 'raised':
                if isinstance(want[1], type) or not f.fired:
                    raise Violation('no-error', f'{where}: no '
                                    f'{want[1]!r}')
            elif op in CALC:
                # neither types nor metadata are promised for calculations
                real, m = pd.DataFrame(res[1]), want[1]
                if isinstance(res[1], Catalog) and 'magnitude' in m:
                    real, m = normal(real), normal(m)
                check(Obj(real, m, 'DataFrame', {}), where)
                n_ok += 1
            else:
                m = want[1]
                if len(want) > 3:
                    new = Obj(res[1], m, want[3], want[2])
                elif fam and isinstance(m, pd.DataFrame) and not (
                        op in COMBINE and 'magnitude' not in ob.frame):
                    if op in COPIES and isinstance(res[1], Catalog):
                        # changes a copy in place: normalised by the next
                        # operation
                        res = ('ok', res[1].copy())
                        m = normal(m) if kind_of(m) != 'DataFrame' else m
                    kind = kind_of(m)
                    meta = want[2]
                    if kind != 'DataFrame':
                        m = normal(m)
                    if kind == 'ForecastCatalog' \
                            and ob.kind != 'ForecastCatalog':
                        meta.pop('n_catalogs', None)
                    new = Obj(res[1], m, kind, meta)
                else:
                    # the left one had lost its required column
                    new = Obj(pd.DataFrame(res[1]) if fam else res[1], m,
                              'DataFrame', {})
                new.frame = new.frame.copy()
                if disjoint(new.frame):
                    check(new, where)
                    n_ok += 1
                    ctx.state(op, ob.kind, new.kind)
                    if op in ('slice', 'shift', 'select', 'swap', 'head',
                              'tail', 'group', 'drop_cols'):
                        # may be a view by the rules of pandas
                        new.real = new.real.copy()
                        if new.kind != 'DataFrame':
                            new.kind = kind_of(new.frame)
                            new.frame = normal(new.frame)
        for j, x in enumerate(pool):
            if disjoint(x.frame):
                check(x, f'{where}: catalog {j} of the pool')
        if new is not None and disjoint(new.frame) and len(new.frame) < 60:
            if len(pool) < 6:
                pool.append(new)
            else:
                pool[o['w'] % 6] = new
        ctx.log(k, op, [(x.kind, len(x.frame)) for x in pool])
        ctx.steps += 1
    ctx.probe('operations', n_ok)
    if n_ok > 1:
        ctx.nontrivial = repr(scn)


def run_inplace(ob, o, where):
    op = o['op']
    fam = ob.kind != 'DataFrame'
    if op == 'set_meta':
        if not fam:
            return 'n/a'
        v = {'name': 'renamed', 'bounding_polygon': 'CH',
             'starttime': pd.Timestamp('1999-01-01'),
             'endtime': pd.Timestamp('2030-01-01')}.get(o['k'], o['d'])
        setattr(ob.real, o['k'], v)
        ob.meta[o['k']] = v
        return 'ok'
    if op in ('strip_in', 'bin_in'):
        if not fam:
            return 'n/a'
        m = own_model(ob, o)
        res, _ = attempt(
            (lambda: ob.real.strip(inplace=True)) if op == 'strip_in' else
            (lambda: ob.real.bin_magnitudes(o['d'], inplace=True)))
        if isinstance(m, type):
            if res[0] != 'raised' or not isinstance(res[1], m):
                raise Violation('no-error', f'{where}: {res} instead of '
                                f'{m.__name__}')
            return 'raised'
        if res[0] == 'raised':
            raise Violation('operation-fails', f'{where}: {res[1]!r}')
        if res[1] is not None:
            raise Violation('in-place', f'{where}: returns {type(res[1])}')
        ob.frame, ob.meta = m[0].copy(), m[1]
        return 'ok'
    f = ob.frame.copy()
    (st, m), _ = attempt(lambda: inplace(f, o))
    (st2, m2), _ = attempt(lambda: inplace(ob.real, o))
    if st != st2:
        raise Violation('operation-fails', f'{where}: {m2!r}')
    if st == 'raised':
        return 'raised'
    ob.frame = f
    return 'ok'


def run_storage(pool, ob, o, stored, where, ctx):
    op = o['op']
    path = os.path.join(disk.scratch(), 'catalog.pkl')
    if op == 'store':
        data = pickle.dumps(ob.real)
        torn = o.get('torn')
        if torn is not None:
            # the process dies while writing; the previous file is a
            # complete one, this one ends early
            data = data[:int(len(data) * min(torn, .999))]
            ctx.fault('torn write')
        with open(path, 'wb') as f:
            f.write(data)
        if torn is None:
            stored.append((data, Obj(None, ob.frame.copy(), ob.kind,
                                     dict(ob.meta))))
        else:
            try:
                ob2 = pickle.load(open(path, 'rb'))
            except Exception:
                return pool, 0
            raise Violation('torn-file-read', f'{where}: {type(ob2)}')
        return pool, 1
    if not stored:
        return pool, 0
    data, model = stored[-1]
    with open(path, 'wb') as f:
        f.write(data)
    with open(path, 'rb') as f:
        real = pickle.load(f)
    new = Obj(real, model.frame.copy(), model.kind, dict(model.meta))
    check(new, where)
    if op == 'crash':
        ctx.fault('crash and restart')
        return [new], 1
    if len(pool) < 6:
        pool.append(new)
    return pool, 1
