"""C08 a catalog written as QuakeML reads back as the same catalog."""
import math

import pandas as pd

from checks import c05
from dst import cats, disk, net, qml
from dst.core import Invalid, Violation
from seismostats import Catalog, ForecastCatalog

PROP = 'C08'
LEVEL = 'exploration'
RULE = ('A run writes a catalog with to_quakeml, stores the text (complete, '
        'torn at any byte, with zero filled tail, or the old version kept), '
        'reads it back through a file with split reads, a string or a '
        'served HTTP response, and writes and reads the result once more; '
        'non-trivial if the catalog has an event; distinct by the whole '
        'scenario.')
STATE = '(set of optional columns, storage outcome, entry point)'
COMPONENTS = {
    'real': ['seismostats to_quakeml, template, parser, Catalog', 'jinja2',
             'xml.sax / expat', 'requests', 'urllib3', 'pandas'],
    'stub': ['storage (torn, lost, zero filled writes, split reads)',
             'TCP sockets, HTTP service', 'uuid4 (seeded)']}
ASSUMPTIONS = [
    'Texts hold no characters that XML 1.0 cannot represent, and no white '
    'space at their ends; type texts that mean "missing" (nan, None, ...) '
    'are missing values.',
    'A secondary magnitude column of the same type as the preferred '
    'magnitude of an event agrees with it.',
    'Symmetric uncertainties only '
    '(the format written has no others).']
BUDGET = {'quick': dict(runs=6000, wall=65, recheck=25, shrink=60),
          'thorough': dict(runs=300000, wall=1200, recheck=200, shrink=120)}

TYPES = qml.TYPES + ['M&w', 'M<5>', 'ML2']
TEXTS = ['ETHZ', 'a&b', '<x>', '"q"', "it's", 'Zürich', '震源', ']]>', ' ',
         '', '\U0001f30b', '{{ 7*7 }}', '{% for %}', '%s %(x)s', '&amp;']
COUNTS = [k.lower() for k in qml.QUALITY if k in qml.COUNTS]


def gen(rng, tier):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8])

    def col(f, miss=.15):
        return [None if rng.random() < miss else f() for _ in range(n)]

    def num(lo, hi, nd):
        def f():
            x = rng.uniform(lo, hi)
            return rng.choice([round(x, nd), x, float(round(x)), 0.0,
                               round(x, 1), -0.0, 1e-7, x * 1e-9])
        return f

    historic = rng.random() < .06

    def time():
        t = qml.gen_time(rng, 0)
        return f'{rng.randint(1001, 1600):04d}' + t[4:] if historic else t

    types = rng.sample(TYPES, rng.randint(1, 3))
    c = dict(longitude=col(num(-180, 180, 5), .05),
             latitude=col(num(-90, 90, 5), .05),
             depth=col(num(-3000, 60000, 2)),
             time=col(time, .05),
             magnitude=col(num(-1, 9, 2), .1),
             magnitude_type=col(lambda: rng.choice(types),
                                rng.choice([0, .2, 1])))
    if rng.random() < .6:
        c['event_type'] = col(lambda: rng.choice(qml.EV_TYPES))
    if rng.random() < .4:
        c['evaluationmode'] = col(lambda: rng.choice(['manual', 'automatic']))
    for k in ('magnitude', 'longitude', 'latitude', 'depth'):
        if rng.random() < .3:
            c[k + '_uncertainty'] = col(num(0, 5, 2), .3)
    for k in qml.QUALITY:
        if rng.random() < .15:
            c[k.lower()] = col((lambda: float(rng.randint(0, 500)))
                               if k in qml.COUNTS else num(0, 360, 2), .3)
    for i in range(1, n):
        if rng.random() < .08:      # the same values again
            for v in c.values():
                v[i] = v[i - 1]
    for k in ('eventID', 'originID', 'magnitudeID'):
        if rng.random() < .5:
            vals = [f'{rng.choice(["smi:x/", "é", "a&b/", "id <"])}{k}{i}'
                    for i in range(n)]
            c[k] = [None if rng.random() < .25 else v for v in vals]
    for t in rng.sample(types + ['Mw', 'ML'], rng.choice([0, 0, 1, 2])):
        key = f'magnitude_{t}'
        same = [x == t for x in c['magnitude_type']]
        c[key] = col(num(-1, 9, 2), .4)
        unc = idc = None
        if rng.random() < .4:
            unc = c[key + '_uncertainty'] = col(num(0, 2, 2), .3)
        if rng.random() < .4:
            idc = c[key + '_magnitudeID'] = [f'smi:sec/{t}/{i}'
                                             for i in range(n)]
        for i in range(n):
            if same[i]:
                c[key][i] = c['magnitude'][i]
                if unc is not None:
                    unc[i] = c.get('magnitude_uncertainty',
                                   [None] * n)[i]
                if idc is not None:
                    idc[i] = c.get('magnitudeID', [None] * n)[i]
            if c[key][i] is None:
                for x in (unc, idc):
                    if x is not None:
                        x[i] = None
    if rng.random() < .1:
        c['catalog_id'] = [rng.randint(0, 2) for _ in range(n)]
    spec = dict(columns=c, historic=historic,
                index=rng.choice([None, rng.sample(range(100), n), [5] * n]))
    return dict(cat=spec, agency=rng.choice(TEXTS), author=rng.choice(TEXTS),
                storage=rng.choice(['full', 'full', 'full', 'torn', 'torn',
                                    'zeros', 'lost']),
                at=rng.random(), via=c05.gen_delivery(rng),
                via2=c05.gen_delivery(rng))


def load(text_bytes, d, ctx):
    """Read stored bytes through one entry point into a catalog."""
    e = d['entry']
    kw = dict(include_uncertainties=True, include_ids=True,
              include_quality=True)
    if e in ('string', 'cat_string'):
        return Catalog.from_quakeml(text_bytes.decode('utf-8'), **kw)
    if e in ('file', 'cat_file'):
        path = disk.store('cat.xml', text_bytes)
        with disk.Disk(dict(size=d['size'], seed=d['seed']),
                       ctx).installed():
            return Catalog.from_quakeml(path, **kw)
    from seismostats import FDSNWSEventClient
    conf = dict(net.PLAIN_SERVICE, seed=d['seed'], framing=d['framing'],
                coding=d['coding'], seg=d['seg'])
    svc = net.Service([], conf)
    svc.answer = lambda q: (200, text_bytes, 'application/xml', 1)
    sim = net.SimNet(svc, ctx=ctx)
    with sim.installed():
        return FDSNWSEventClient(net.URL).get_events(
            include_all_magnitudes=True, include_uncertainty=True,
            include_ids=True, include_quality=True)


def rows_of(spec, ids=None):
    """The events that have to survive: list of {column: value}."""
    c = spec['columns']
    n = min((len(v) for v in c.values()), default=0)
    rows = []
    for i in range(n):
        if ids is not None and i not in ids:
            continue
        r = {k: v[i] for k, v in c.items()}
        if r.get('latitude') is None or r.get('longitude') is None \
                or r.get('time') is None:
            continue
        rows.append(r)
    return rows


def compare(cat, rows, ctx):
    if len(cat) != len(rows):
        return f'{len(cat)} events instead of {len(rows)}'
    new = []
    for i, r in enumerate(rows):
        for k, e in r.items():
            if k == 'catalog_id':
                continue
            g = cat[k].iloc[i] if k in cat.columns else None
            if k in ('magnitude_type', 'event_type') and e in qml.NULLS:
                e = None
            if e is None:
                if k in ('eventID', 'originID', 'magnitudeID'):
                    if not isinstance(g, str) or not g:
                        return f'event {i}: no {k} was created: {g!r}'
                    new.append(g)
                    continue
                if k.startswith('magnitude_') and \
                        k.endswith('_magnitudeID'):
                    continue
                if not qml.is_missing(g):
                    return f'event {i} {k}: {g!r} instead of nothing'
                continue
            if qml.is_missing(g):
                return f'event {i} {k}: nothing instead of {e!r}'
            if k == 'time':
                ok = pd.Timestamp(g) == pd.Timestamp(e)
            elif isinstance(e, str):
                ok = g == e
            else:
                x = float(g)
                ok = x == e or abs(x - e) <= 1e-11 * abs(e)
            if not ok:
                return f'event {i} {k}: {g!r} instead of {e!r}'
        for k in ('eventID', 'originID', 'magnitudeID'):
            if k not in r:
                g = cat[k].iloc[i] if k in cat.columns else None
                if not isinstance(g, str) or not g:
                    return f'event {i}: no {k} was created: {g!r}'
                new.append(g)
    if len(set(new)) != len(new):
        return f'created IDs are not unique: {new}'
    return None


def run(scn, ctx):
    spec = scn['cat']
    cols = spec['columns']
    n = {len(v) for v in cols.values()}
    if len(n) > 1 or not set(cols) >= {'longitude', 'latitude', 'depth',
                                       'time', 'magnitude',
                                       'magnitude_type'}:
        raise Invalid()
    for k, v in cols.items():
        # secondary magnitudes agree with the preferred one
        for t in {x for x in cols['magnitude_type'] if x}:
            for suf, ref in (('', 'magnitude'), ('_uncertainty',
                             'magnitude_uncertainty'),
                             ('_magnitudeID', 'magnitudeID')):
                if k == f'magnitude_{t}{suf}':
                    r = cols.get(ref, [None] * len(v))
                    if any(x != y for x, y, z in zip(
                            v, r, cols['magnitude_type']) if z == t):
                        raise Invalid()
                    if suf and any(x is not None and y is None for x, y in
                                   zip(v, cols.get(f'magnitude_{t}', v))):
                        raise Invalid()
    cat = cats.build(spec)
    before = cats.snapshot(cat)
    out = cat.to_quakeml(agencyID=scn['agency'], author=scn['author'])
    x = cats.snap_diff(before, cats.snapshot(cat))
    if x:
        raise Violation('catalog-changed', x)
    if isinstance(cat, ForecastCatalog):
        groups = sorted(set(cols['catalog_id']))
        if not isinstance(out, list) or len(out) != len(groups):
            raise Violation('wrong-documents', f'{len(out)} documents for '
                            f'{len(groups)} catalogs')
        parts = [(t, rows_of(spec, [i for i, g in enumerate(
            cols['catalog_id']) if g == gid]))
            for t, gid in zip(out, groups)]
    else:
        parts = [(out, rows_of(spec))]
    for text, rows in parts:
        data = text.encode('utf-8')
        st = scn['storage']
        d = scn['via']
        ctx.fault('storage ' + st)
        if st in ('torn', 'zeros'):
            at = min(int(scn['at'] * len(data)), len(data) - 1)
            bad = data[:at] + (b'\0' * (len(data) - at)
                               if st == 'zeros' else b'')
            try:
                # a string cannot be torn inside a character
                got = load(bad if 'string' not in d['entry'] else
                           bad.decode('utf-8', 'ignore').encode(), d, ctx)
            except Exception as e:
                ctx.log('raised', type(e).__name__)
                ctx.probe('torn document refused')
            else:
                if at == 0 and st == 'torn':
                    if len(got):
                        raise Violation('wrong-content', 'events in an '
                                        'empty document')
                else:
                    x = compare(got, rows, ctx)
                    if x or at < len(data.rstrip()):
                        raise Violation('silent-loss', f'torn at {at} of '
                                        f'{len(data)}: {x}')
        if st == 'lost':
            # the crash kept the previous version of the file
            path = disk.store('cat.xml', data)
            del path
        try:
            got = load(data, d, ctx)
        except Exception as e:
            raise Violation('cannot-read', f'{type(e).__name__}: {e}')
        x = compare(got, rows, ctx)
        if x:
            raise Violation('not-the-same', x)
        ctx.log(len(got), sorted(got.columns))
        # once more: what was read is written and read again
        full = len(got) and all(
            k in got.columns for k in ('longitude', 'latitude', 'depth',
                                       'time', 'magnitude',
                                       'magnitude_type'))
        text2 = got.to_quakeml() if full else None
        if text2 is not None:
            try:
                again = load(text2.encode('utf-8'), scn['via2'], ctx)
            except Exception as e:
                raise Violation('cannot-read', f'second time: '
                                f'{type(e).__name__}: {e}')
            rows2 = []
            for i in range(len(got)):
                r = {}
                for k in got.columns:
                    v = got[k].iloc[i]
                    r[k] = None if qml.is_missing(v) else v
                rows2.append(r)
            x = compare2(again, rows2, set(cols))
            if x:
                raise Violation('not-the-same', f'second time: {x}')
            ctx.probe('written and read twice')
        ctx.state(tuple(sorted(set(cols) - {'time'})), st, d['entry'])
    if rows_of(spec):
        ctx.nontrivial = repr(scn)


def compare2(cat, rows, cols):
    if len(cat) != len(rows):
        return f'{len(cat)} events instead of {len(rows)}'
    for i, r in enumerate(rows):
        for k, e in r.items():
            if k not in cols and k not in ('eventID', 'originID',
                                           'magnitudeID'):
                continue
            g = cat[k].iloc[i] if k in cat.columns else None
            if qml.is_missing(g) != (e is None):
                return f'event {i} {k}: {g!r} instead of {e!r}'
            if e is None:
                continue
            if isinstance(e, str):
                try:
                    ok = g == e or math.isclose(float(g), float(e),
                                                rel_tol=1e-11)
                except (TypeError, ValueError):
                    ok = False
            else:
                ok = g == e or abs(float(g) - float(e)) <= \
                    1e-11 * abs(float(e)) if k != 'time' \
                    else pd.Timestamp(g) == pd.Timestamp(e)
            if not ok:
                return f'event {i} {k}: {g!r} instead of {e!r}'
    return None
