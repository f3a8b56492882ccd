"""C17 an analysis depends on the events of a catalog, not on its history."""
import io
import os
import pickle

import numpy as np
import pandas as pd

from dst import analyses, cats, disk, rngseam, sched
from dst.core import Violation
from seismostats import Catalog
from seismostats.utils import set_option

PROP = 'C17'
LEVEL = 'exploration'
RULE = ('A run takes a catalog through up to nine operations (selection, '
        'sorting, combination, other indices, storage, analyses, failures '
        'at a chosen line) and compares one to three analyses of it with '
        'those of a catalog newly built from the same events, and, for '
        'analyses with an order of their own, of their permutation; '
        'non-trivial if an analysis of at least one event gave a result; '
        'distinct by the whole scenario.')
STATE = '(analysis, last two operations of the history, outcome)'
COMPONENTS = {
    'real': ['all analyses, declustering, QuakeML export', 'Catalog and '
             'pandas operations', 'pickle and CSV files'],
    'stub': ['failures at any executed line', 'random stream']}
ASSUMPTIONS = [
    'Floating point results are compared with a relative tolerance of 1e-9 '
    '(1e-7 for permuted events): the order of a sum may differ.',
    'Permuted events have distinct times.']
BUDGET = {'quick': dict(runs=5000, wall=80, recheck=20, shrink=60),
          'thorough': dict(runs=600000, wall=1200, recheck=200, shrink=120)}
EXC = {'memory': MemoryError, 'interrupt': KeyboardInterrupt,
       'runtime': RuntimeError}
STEPS = ['mask', 'mask', 'iloc', 'shuffle', 'sort', 'concat', 'append',
         'index', 'reset', 'pickle', 'csv', 'records', 'fail', 'analyse',
         'column', 'columns', 'query', 'drop', 'dup', 'copy', 'frame',
         'reindex', 'loc', 'merge', 'setvalue', 'update']
# analyses which order the events themselves, or need no order
ORDERED = ['b_est', 'a_est', 'b_func', 'a_func', 'mc_maxc', 'mc_stab',
           'mc_ks', 'ks_test', 'signif', 'signif', 'partition',
           'decluster', 'binning', 'fmd',
           'shi_bolt', 'kijko', 'cat_b', 'cat_a', 'cat_maxc', 'cat_stab',
           'cat_ks', 'polygon', 'incomplete']


def gen(rng, tier):
    data = analyses.gen_data(rng, n=rng.choice([2, 4, 10, 20, 30, 60]),
                             nan=rng.random() < .1)
    n = len(data['events'])
    steps = []
    for _ in range(rng.randint(1, 9)):
        s = dict(op=rng.choice(STEPS), seed=rng.randrange(10 ** 6),
                 frac=rng.choice([.9, .7, .5, 1.]),
                 how=rng.choice(['magnitude', 'time', 'depth', 'eventID']),
                 kind=rng.choice(['label', 'float', 'time', 'dup', 'rev',
                                  'multi', 'big', 'named']))
        if s['op'] in ('fail', 'analyse'):
            s['p'] = analyses.gen_op(rng, data)
            s['k'] = rng.randint(1, rng.choice([5, 30, 100]))
            s['exc'] = rng.choice(list(EXC))
        steps.append(s)
    ops = []
    for _ in range(rng.randint(1, 3)):
        o = analyses.gen_op(rng, data)
        if o['op'] == 'incomplete':
            o['how'] = 'array'
        ops.append(o)
    scn = dict(data=data, first=rng.choice([n, n, max(1, n // 2)]),
               steps=steps, ops=ops)
    if rng.random() < .5:
        d2 = analyses.gen_data(rng, n=rng.choice([5, 10, 20, 40, 80]),
                               ties=False)
        scn['perm'] = dict(data=d2, seed=rng.randrange(10 ** 6),
                           ops=[fix_perm(rng, analyses.gen_op(
                               rng, d2, ORDERED), d2) for _ in range(2)])
    return scn


def fix_perm(rng, p, data):
    p = dict(p)
    if p['op'] == 'incomplete':
        p['how'] = 'array'
    if p['op'] == 'signif':
        p['x'] = rng.choice(['time', 'depth', 'depth', 'longitude'])
        ks = [e[4] for e in data['events'] if e[4] is not None]
        if ks and rng.random() < .8:
            # enough events
            p.update(mc=analyses.mag(min(ks), data['d']), mcs=None,
                     d=data['d'], min=1)
    if p['op'] == 'partition':
        p['parts'] = 1
    if p.get('method') in ('positive', 'more'):
        p['times'] = True
        if p['op'] in ('cat_stab', 'cat_ks'):
            p['method'] = 'classic'
    p['weights'] = False
    return p


# --- results without what legitimately differs

def norm(x):
    if isinstance(x, pd.DataFrame):
        s = cats.snapshot(x)
        return ['catalog', s[0], sorted(
            (k, t if v else '', v) for k, t, v in s[1]), list(s[4])]
    if isinstance(x, pd.Series):
        return ['series', [analyses.canon(i) for i in x.tolist()]]
    if isinstance(x, (tuple, list)):
        return [type(x).__name__] + [norm(i) for i in x]
    return analyses.canon(x)


def close(a, b, rel=1e-9):
    if a == b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rel)
                                        for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        try:
            x, y = [float(t[11:-1] if t.startswith('np.float64(') else t)
                    for t in (a, b)]
        except ValueError:
            return False
        return abs(x - y) <= rel * max(abs(x), abs(y)) + 1e-12
    return False


def perform(cat, p, f=norm):
    if p['op'] not in analyses.ALL:
        return ['no such analysis']
    try:
        with np.errstate(all='ignore'):
            return ['ok', f(analyses.ALL[p['op']](cat, p, p['how']))]
    except Violation:
        raise
    except Exception as e:
        return ['raised', type(e).__name__]


# --- histories

def index(kind, n, seed):
    r = np.random.default_rng(seed)
    if kind == 'label':
        return pd.Index([f'e{i}' for i in r.permutation(n)], dtype=object)
    if kind == 'float':
        return pd.Index(r.permutation(n) + .5)
    if kind == 'time':
        return pd.DatetimeIndex(pd.Timestamp('2001-01-01')
                                + pd.to_timedelta(r.permutation(n), 'h'))
    if kind == 'dup':
        return pd.Index(r.integers(0, max(1, n // 2), n))
    if kind == 'rev':
        return pd.Index(np.arange(n)[::-1])
    if kind == 'multi':
        return pd.MultiIndex.from_arrays([r.integers(0, 3, n),
                                          r.permutation(n)])
    if kind == 'named':
        return pd.Index(r.permutation(n), name='magnitude_')
    return pd.Index(r.permutation(n) + 10 ** 6)


def step(cat, ids, s, scn):
    """Apply a step; returns the catalog and the IDs of its events in
    order."""
    op, n = s['op'], len(cat)
    r = np.random.default_rng(s['seed'])
    ids = np.array(ids, dtype=int)
    if op == 'mask':
        m = r.random(n) < s['frac']
        return cat[m], ids[m]
    if op == 'iloc':
        a = r.integers(0, n // 3 + 1)
        return cat.iloc[a:], ids[a:]
    if op in ('shuffle', 'dup'):
        k = r.permutation(n) if op == 'shuffle' else r.integers(
            0, max(1, n), n if n else 0)
        return cat.iloc[k], ids[k]
    if op == 'sort':
        k = cat[s['how']].argsort(kind='stable').to_numpy() \
            if s['how'] != 'magnitude' else np.argsort(
                cat['magnitude'].to_numpy(), kind='stable')
        out = cat.sort_values(s['how'], kind='stable')
        return out, ids[k]
    if op == 'concat':
        a = int(r.integers(0, n + 1))
        parts = [(cat.iloc[:a], ids[:a]), (cat.iloc[a:], ids[a:])]
        if r.random() < .5:
            parts.reverse()
        if not all(len(p[0]) for p in parts):
            return cat, ids
        return (pd.concat([p[0] for p in parts],
                          ignore_index=bool(r.random() < .3)),
                np.concatenate([p[1] for p in parts]))
    if op == 'append':
        extra = [i for i in range(len(scn['data']['events']))][-2:]
        other = fresh(scn, extra)
        other = other[list(cat.columns)]
        return pd.concat([cat, other]), np.concatenate([ids, extra])
    if op == 'index':
        out = cat.copy()
        out.index = index(s['kind'], n, s['seed'])
        return out, ids
    if op == 'reset':
        return cat.reset_index(drop=True), ids
    if op == 'pickle':
        f = os.path.join(disk.scratch(), 'c17.pkl')
        if r.random() < .5:
            cat.to_pickle(f)
            return pd.read_pickle(f), ids
        with open(f, 'wb') as h:
            pickle.dump(cat, h, protocol=int(r.integers(2, 6)))
        with open(f, 'rb') as h:
            return pickle.load(h), ids
    if op == 'csv':
        t = cat.to_csv(index=bool(r.random() < .5))
        df = pd.read_csv(io.StringIO(t), float_precision='round_trip')
        df = df[list(cat.columns)]
        if not len(df):
            return cat, ids
        return Catalog(df, **meta(cat)), ids
    if op == 'records':
        if not n:
            return cat, ids
        return Catalog(cat.to_dict(orient='records'), **meta(cat)), ids
    if op in ('fail', 'analyse'):
        with sched.fail_at(s['k'] if op == 'fail' else None,
                           EXC[s['exc']]):
            try:
                perform(cat, s['p'])
            except BaseException as e:
                if not isinstance(e, EXC[s['exc']]):
                    raise
        return cat, ids
    if op == 'column':
        cat = cat.copy()
        cat['extra'] = r.random(n)
        if r.random() < .5:
            del cat['extra']
            return cat, ids
        return cat.drop(columns='extra'), ids
    if op == 'columns':
        return cat[list(r.permutation(list(cat.columns)))], ids
    if op == 'query':
        v = float(r.uniform(0, 30))
        m = (cat['depth'] <= v).to_numpy()
        return cat.query('depth <= @v'), ids[m]
    if op == 'drop':
        if not n or not cat.index.is_unique or cat.index.nlevels > 1:
            return cat, ids
        k = int(r.integers(0, n))
        return cat.drop(index=cat.index[k]), np.delete(ids, k)
    if op == 'copy':
        return cat.copy(deep=bool(r.random() < .5)), ids
    if op == 'frame':
        return Catalog(pd.DataFrame(cat), **meta(cat)), ids
    if op == 'reindex':
        if not cat.index.is_unique or cat.index.nlevels > 1:
            return cat, ids
        k = r.permutation(n)
        return cat.reindex(cat.index[k]), ids[k]
    if op == 'loc':
        m = r.random(n) < s['frac']
        return cat.loc[m, :], ids[m]
    if op == 'merge':
        left = cat.reset_index(drop=True)
        out = left.merge(pd.DataFrame({
            'eventID': sorted(set(left['eventID']), reverse=True),
            'extra': 1}), on='eventID', how='left')
        return out.drop(columns='extra'), ids
    if op == 'setvalue' and n:
        cat = cat.copy()
        k = int(r.integers(0, n))
        j = list(cat.columns).index('depth')
        v = cat['depth'].to_numpy()[k]
        cat.iloc[k, j] = -1.
        cat.iloc[k, j] = v
        return cat, ids
    if op == 'update' and n and not r.random() < .3:
        # the same magnitudes, written again
        cat = cat.copy()
        cat['magnitude'] = cat['magnitude'].to_numpy()[::-1][::-1]
        cat['time'] = [str(t) for t in cat['time']]
        return Catalog(cat, **meta(cat)), ids
    return cat, ids


def meta(cat):
    return {k: getattr(cat, k) for k in cats.META}


def fresh(scn, ids):
    ev = scn['data']['events']
    data = dict(scn['data'], events=[ev[i % len(ev)] for i in ids])
    c = analyses.catalog(data)
    for k in ('event', 'origin', 'magnitude'):
        tag = {'event': '', 'origin': 'o/', 'magnitude': 'm/'}[k]
        c[k + 'ID'] = pd.Series([f'smi:x/{tag}{i}' for i in ids],
                                dtype=object)
    return c


def run(scn, ctx):
    set_option('warnings', False)
    with analyses.quiet(analyses.sink()), rngseam.Entropy(1):
        rngseam.ambient(1)
        try:
            _run(scn, ctx)
        finally:
            f = os.path.join(disk.scratch(), 'c17.pkl')
            if os.path.exists(f):
                os.unlink(f)


def _run(scn, ctx):
    ids = np.arange(max(1, min(scn['first'], len(scn['data']['events']))))
    if not scn['data']['events']:
        return
    cat = fresh(scn, ids)
    last = []
    for s in scn['steps']:
        cat, ids = step(cat, ids, s, scn)
        last = (last + [s['op']])[-2:]
        if s['op'] == 'fail':
            ctx.fault('failed operation')
        if s['op'] in ('pickle', 'csv'):
            ctx.fault('restored from disk')
        if not len(cat):
            break
        ctx.log(s['op'], list(map(int, ids)))
    new = fresh(scn, ids)
    if type(cat) is not Catalog:
        # C13 is about this
        ctx.probe('not a catalog')
        return
    # the same columns and metadata
    if set(cat.columns) != set(new.columns):
        raise Violation('columns', f'{list(cat.columns)} after {last}')
    snap = cats.snapshot(cat)
    done = 0
    for p in scn['ops']:
        got, want = perform(cat, p), perform(new, p)
        ctx.log(p['op'], got)
        ctx.state(p['op'], tuple(last), want[0])
        if not close(got, want):
            raise Violation('history', f'{p} after {last}: {got} instead of '
                            f'{want}'[:1800])
        if want[0] == 'ok' and len(new):
            done += 1
            ctx.probe(p['op'])
    if cats.snapshot(cat) != snap:
        raise Violation('input-changed', str(cats.snap_diff(
            snap, cats.snapshot(cat))))
    if 'perm' in scn:
        done += permuted(scn['perm'], ctx)
    ctx.steps += len(scn['steps'])
    if done:
        ctx.nontrivial = repr(scn)


# --- permutations

def by_event(cat, p):
    """Result in terms of events."""
    raw = {}

    def f(x):
        raw['x'] = x
        return None

    out = perform(cat, p, f)
    if out[0] != 'ok':
        return out
    x = raw['x']
    ids = [str(i) for i in cat['eventID']]
    op = p['op']
    if op == 'decluster':
        return ['ok', sorted(zip(ids, map(bool, x)))]
    if op == 'binning' and not p.get('any'):
        return ['ok', sorted(zip(ids, map(repr, x[0]))), list(x[1:])]
    if op == 'fmd':
        return ['ok', [[norm(y[:2]), sorted(zip(ids, map(repr, y[2]))
                                            if len(y[2]) == len(ids) else
                                            [])] for y in x]]
    if op in ('b_est', 'a_est', 'cat_b', 'cat_a'):
        x, c = x if op.startswith('cat') else (x, None)
        x = dict(x)
        idx = x.pop('idx', None)
        if isinstance(idx, list):
            x['events'] = sorted(ids[int(i)] for i in idx[3])
        for k in ('magnitudes', 'times', 'weights'):
            if isinstance(x.get(k), list):
                x[k] = sorted(x[k][3], key=str)
        return ['ok', sorted(x.items()),
                None if c is None else by_catalog(c)]
    if op.startswith('cat_'):
        return ['ok', norm(x[0]), by_catalog(x[1])]
    if op == 'polygon':
        return ['ok', by_catalog(x)]
    return ['ok', norm(x)]


def by_catalog(c):
    s = cats.snapshot(c)
    rows = sorted(zip(*[v[2] for v in s[1]]), key=str)
    return [s[0], [v[0] for v in s[1]], rows, list(s[4])]


def permuted(q, ctx):
    n = len(q['data']['events'])
    if not n:
        return 0
    base = analyses.catalog(q['data'])
    if not base['time'].is_unique:
        return 0
    k = np.random.default_rng(q['seed']).permutation(n)
    other = base.iloc[k]
    if q['seed'] % 3 == 0:
        other = other.reset_index(drop=True)
    done = 0
    for p in q['ops']:
        if p['op'] == 'signif' and not base[p['x']].is_unique:
            continue
        want, got = by_event(base, p), by_event(other, p)
        if p['op'] == 'signif':
            # sorting them first is the same
            got2 = by_event(base.iloc[np.argsort(base[p['x']].to_numpy())],
                            dict(p, x=None))
            if not close(got2, want, 1e-7):
                raise Violation('order', f'{p}: {want} but {got2} for '
                                'sorted events')
        ctx.log('perm', p['op'], want)
        ctx.state('permuted', p['op'], want[0])
        if not close(got, want, 1e-7):
            raise Violation('order', f'{p} of permuted events: {got} instead '
                            f'of {want}'[:1800])
        done += want[0] == 'ok'
    ctx.fault('rows permuted')
    return done
