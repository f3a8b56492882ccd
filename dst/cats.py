"""Catalogs as JSON data and back."""
import datetime as dt

import numpy as np
import pandas as pd

from seismostats import Catalog, ForecastCatalog

from . import qml

META = ['name', 'mc', 'b_value', 'a_value', 'delta_m', 'starttime',
        'endtime', 'bounding_polygon', 'depth_min', 'depth_max']


def build(spec, cls=None):
    """spec: {'columns': {name: [values]}, 'index': [...], 'meta': {}}.
    Times are ISO texts."""
    cols = {}
    for k, v in spec['columns'].items():
        if k == 'time':
            if spec.get('historic'):
                cols[k] = [None if x is None else
                           dt.datetime.fromisoformat(x) for x in v]
            else:
                cols[k] = pd.to_datetime(pd.Series(
                    [pd.NaT if x is None else pd.Timestamp(x) for x in v],
                    dtype='datetime64[ns]')).values
        else:
            cols[k] = list(v)
    idx = spec.get('index')
    if idx is not None:
        n = len(next(iter(cols.values()))) if cols else 0
        idx = list(idx)[:n] + list(range(10_000, 10_000 + max(
            0, n - len(idx))))
    cls = cls or (ForecastCatalog if 'catalog_id' in cols else Catalog)
    meta = dict(spec.get('meta') or {})
    for k in ('starttime', 'endtime'):
        if meta.get(k) is not None:
            meta[k] = pd.Timestamp(meta[k])
    if 'n_catalogs' in meta and cls is not ForecastCatalog:
        del meta['n_catalogs']
    df = pd.DataFrame(cols, index=idx)
    return cls(df, **meta)


def column(df, j):
    """Values of a column; faster than a Series of it."""
    try:
        return df._get_column_array(j)
    except AttributeError:
        return df.iloc[:, j]


def snapshot(df):
    """Everything observable about a catalog, comparable with ==."""
    meta = {}
    for k in META + ['n_catalogs']:
        v = getattr(df, k, None) if not (
            k in df.columns) else df.__dict__.get(k)
        meta[k] = 'missing' if qml.is_missing(v) else repr(v)
    cols = []
    for j, c in enumerate(df.columns):
        s = column(df, j)
        cols.append((str(c), str(s.dtype), tuple(
            '~' if qml.is_missing(x) else repr(x) for x in s.tolist())))
    return (type(df).__name__, tuple(cols), tuple(map(repr, df.index)),
            str(df.index.dtype), tuple(sorted(meta.items())))


def snap_diff(a, b):
    """Readable difference of two snapshots, or None."""
    if a == b:
        return None
    for n, x, y in zip(('type', 'columns', 'index', 'index type',
                        'metadata'), a, b):
        if x != y:
            if n == 'columns':
                if [c[0] for c in x] != [c[0] for c in y]:
                    return f'columns {[c[0] for c in y]} instead of ' \
                        f'{[c[0] for c in x]}'
                for p, q in zip(x, y):
                    if p != q:
                        return f'column {q[0]}: {q[1:]} instead of ' \
                            f'{p[1:]}'[:800]
            if n == 'metadata':
                return 'metadata ' + ', '.join(
                    f'{k}: {dict(y)[k]} instead of {v}'
                    for k, v in x if dict(y)[k] != v)
            return f'{n}: {y} instead of {x}'[:800]
    return 'different'
