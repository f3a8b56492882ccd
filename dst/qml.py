"""Model of QuakeML documents: generator, serialiser with many equivalent
ways to write the same document, and an independent reading of it
(computed from the model, never from the text)."""
import json
import math
import random
import re
from datetime import datetime, timedelta

import numpy as np
import pandas as pd

REAL = ['value', 'uncertainty', 'lowerUncertainty', 'upperUncertainty',
        'confidenceLevel']
QUALITY = ['associatedPhaseCount', 'usedPhaseCount', 'associatedStationCount',
           'usedStationCount', 'depthPhaseCount', 'standardError',
           'azimuthalGap', 'secondaryAzimuthalGap', 'maximumDistance',
           'minimumDistance', 'medianDistance']
COUNTS = {'associatedPhaseCount', 'usedPhaseCount', 'associatedStationCount',
          'usedStationCount', 'depthPhaseCount'}
NUMERIC = {'magnitude', 'latitude', 'longitude', 'depth',
           'associatedphasecount', 'usedphasecount',
           'associatedstationcount', 'usedstationcount', 'standarderror',
           'azimuthalgap', 'secondaryazimuthalgap', 'maximumdistance',
           'minimumdistance', 'mediandistance'}
NULLS = {'', 'nan', 'NaN', 'none', 'None', 'na', 'Na', 'NA', 'null', 'Null',
         'NULL'}
TYPES = ['ML', 'MLhc', 'Mw', 'mb', 'mb_Lg', 'Ms', 'M', 'MLh', 'Md', 'mB_BB',
         'mB', 'MW']
EV_TYPES = ['earthquake', 'explosion', 'quarry blast', 'induced or triggered '
            'event', 'other event', 'not existing', 'Erdbeben (vermutet)',
            'séisme', '地震', 'a & b < c', 'x]]>y', 'quarry  blast', 'a\tb']
WORDS = ['ETHZ', 'a&b', '<x>', '"q"', "it's", 'Zürich', '震源', '\U0001f30b',
         'line one', ']]>', 'nan', 'A  B', '100 %', 'é', 'x=y;z', '&amp;']


def _num(rng, lo, hi, nd):
    x = rng.uniform(lo, hi)
    s = f'{x:.{rng.randint(0, nd)}f}'
    if rng.random() < 0.03:
        s = f'{x:.3e}'
    if rng.random() < 0.03:
        s = '0'
    return s


HISTORIC = .01      # before (or after) the years of pandas
ZONES = {'+02:00': 120, '-05:30': -330, '+00:00': 0, '': 0, 'Z': 0}


def gen_time(rng, historic=HISTORIC):
    y = rng.choice([1900, 1969, 1970, 1999, 2000, 2016, 2020, 2024, 2100])
    if rng.random() < historic:
        y = rng.choice([999, 1001, 1348, 1356, 1676, 2263])
    mo, d = rng.randint(1, 12), rng.randint(1, 28)
    h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59),
                           (rng.randint(0, 23), rng.randint(0, 59),
                            rng.randint(0, 59))])
    t = f'{y:04d}-{mo:02d}-{d:02d}T{h:02d}:{mi:02d}:{s:02d}'
    k = rng.randint(0, 3)
    if k == 1:
        t += f'.{rng.randint(0, 999999):06d}'
    elif k == 2:
        t += f'.{rng.randint(0, 9)}'
    elif k == 3:
        t += '.' + rng.choice(['000000', '999999', '000001', '500', '25'])
    return t


def gen_real(rng, lo, hi, nd):
    r = {'value': _num(rng, lo, hi, nd)}
    if rng.random() < 0.4:
        r['uncertainty'] = _num(rng, 0, 5, 3)
    if rng.random() < 0.15:
        r['lowerUncertainty'] = _num(rng, 0, 5, 3)
        r['upperUncertainty'] = _num(rng, 0, 5, 3)
    if rng.random() < 0.1:
        r['confidenceLevel'] = _num(rng, 50, 99, 1)
    return r


def gen_origin(rng, oid, quality=0.5):
    o = dict(id=oid, time={'value': gen_time(rng)},
             latitude=gen_real(rng, -90, 90, 5),
             longitude=gen_real(rng, -180, 180, 5))
    if rng.random() < 0.05:
        o['zone'] = rng.choice(['+02:00', '-05:30', '+00:00', 'Z'])
    if rng.random() < 0.2:
        o['time']['uncertainty'] = _num(rng, 0, 9, 2)
    if rng.random() < 0.85:
        o['depth'] = gen_real(rng, -3000, 60000, 2)
    if rng.random() < 0.6:
        o['mode'] = rng.choice(['manual', 'automatic'])
    if rng.random() < quality:
        o['quality'] = {k: (str(rng.randint(0, 300)) if k in COUNTS
                            else _num(rng, 0, 360, 2))
                        for k in QUALITY if rng.random() < 0.5}
    return o


def gen_mag(rng, mid, typ, version, day):
    m = dict(id=mid, mag=gen_real(rng, -1, 9, 3), type=typ,
             ver=version, ctime=day,
             cform=rng.choice(['Z', 'Z', '', '+00:00', '+02:00', '-05:30']))
    return m


def gen_event(rng, n, rich=1.0, types=None, quality=0.5):
    eid = rng.choice(['smi:x/ev%d', 'quakeml:ch.ethz/e/%d', 'e%d',
                      'smi:a/b?c=1&d=%d', 'é%d', 'id "%d"']) % n
    types = types or TYPES
    # IDs of parts may be local to their event
    pid = 'smi:local' if rng.random() < .25 * rich else eid
    no = 1 if rng.random() > rich else rng.choice([1, 1, 2, 3])
    origins = [gen_origin(rng, f'{pid}/o{k}', quality) for k in range(no)]
    ts = [rng.choice(types)]
    if rng.random() < rich:
        ts = rng.sample(types, rng.randint(1, min(4, len(types))))
    mags = []
    for t in ts:
        nv = 1 if rng.random() < 0.75 else rng.randint(2, 4)
        # how versions of one type are told apart; never tied
        how = rng.choice(['version', 'ctime', 'both'])
        vers = rng.sample(range(0, 40), nv)
        # created seconds, minutes, ... years apart
        unit = rng.choice([1e-6, .01, 1, 7, 60, 3600, 59820, 86400,
                           86400 * 31])
        days = [unit * k for k in rng.sample(range(0, 100), nv)]
        if how == 'both' and rng.random() < 0.6:
            vers = [vers[0]] * nv
        for v, d in zip(vers, days):
            mags.append(gen_mag(
                rng, f'{pid}/m{len(mags)}', t,
                str(v) if how != 'ctime' or nv == 1 else None,
                d if how != 'version' or nv == 1 or rng.random() < .3
                else None))
    if rng.random() < 0.08 * rich:
        mags.append(gen_mag(rng, f'{pid}/m{len(mags)}', None, None, None))
    rng.shuffle(mags)
    ev = dict(id=eid, origins=origins, mags=mags,
              po=origins[rng.randrange(len(origins))]['id'],
              pm=mags[rng.randrange(len(mags))]['id'],
              type=rng.choice(EV_TYPES))
    if rng.random() < 0.06 * rich:
        ev['po'] = rng.choice([None, eid + '/nowhere',
                               f'{pid}/o{len(origins)}'])
    if rng.random() < 0.06 * rich:
        ev['pm'] = rng.choice([None, eid + '/nothing',
                               f'{pid}/m{len(mags)}'])
    if rng.random() < 0.06 * rich:
        ev['mags'], ev['pm'] = [], None
    if rng.random() < 0.05 * rich:
        ev['type'] = rng.choice([None, 'null', 'None'])
    ev['noise'] = rng.randrange(1 << 30) if rng.random() < 0.7 * rich else 0
    return ev


def gen_events(rng, n, *args, **kwargs):
    """n events, some of them with the values of the one before, or listed
    twice."""
    evs = []
    for i in range(n):
        if evs and rng.random() < .08:
            evs.append(_twin(evs[-1], i) if rng.random() < .7
                       else json.loads(json.dumps(evs[-1])))
        else:
            evs.append(gen_event(rng, i, *args, **kwargs))
    return evs


def _twin(ev, i):
    old, new = ev['id'], f'smi:twin/{i}'

    def other(x):
        return new + x[len(old):] if x and x.startswith(old + '/') else x
    ev = json.loads(json.dumps(ev))
    ev.update(id=new, po=other(ev['po']), pm=other(ev['pm']))
    for x in ev['origins'] + ev['mags']:
        x['id'] = other(x['id'])
    return ev


def with_zone(text, zone, zulu):
    """The time (UTC) as written in a time zone."""
    if zone is None or not zulu:
        # (pandas misreads times without a zone after ones with an offset)
        return text + ('Z' if zulu else '')
    t = datetime.fromisoformat(text[:19]) + timedelta(minutes=ZONES[zone])
    return t.isoformat() + text[19:] + zone


def to_ctime(seconds, form='Z'):
    """ISO text of a creation time, in another time zone or UTC."""
    off = ZONES[form]
    ts = pd.Timestamp('2010-01-01') + pd.Timedelta(minutes=off) \
        + pd.Timedelta(microseconds=round(seconds * 1e6))
    text = ts.strftime('%Y-%m-%dT%H:%M:%S')
    if ts.microsecond:
        text += f'.{ts.microsecond:06d}'.rstrip('0')
    return text + form


# ------------------------------------------------------------ serialising

DEFAULT_STYLE = dict(seed=0, layout='pretty', esc='min', enc='utf-8',
                     decl=True, zulu=True, order='std')
LAYOUTS = ['pretty', 'compact', 'crlf', 'deep']
ESCAPES = ['min', 'cdata', 'charref', 'mixed']
ENCODINGS = ['utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1', 'us-ascii']


def gen_style(rng):
    return dict(seed=rng.randrange(1 << 30), layout=rng.choice(LAYOUTS),
                esc=rng.choice(ESCAPES), enc=rng.choice(ENCODINGS),
                decl=rng.random() < 0.9, zulu=rng.random() < 0.6,
                order=rng.choice(['std', 'std', 'shuffled']))


class _Writer:
    def __init__(self, style):
        self.s = style
        self.r = random.Random(style['seed'])
        self.out = []
        self.depth = 0
        self.cs = {'iso-8859-1': 255, 'us-ascii': 127}.get(style['enc'],
                                                           0x10ffff)

    def esc(self, t, attr=False):
        o = []
        for c in t:
            if c == '&':
                o.append(self.r.choice(['&amp;', '&#38;', '&#x26;'])
                         if self.s['esc'] != 'min' else '&amp;')
            elif c == '<':
                o.append('&lt;')
            elif c == '>':
                o.append('&gt;')
            elif c == '"' and attr:
                o.append('&quot;')
            elif ord(c) > self.cs:
                o.append(f'&#{ord(c)};' if self.r.random() < .5
                         else f'&#x{ord(c):x};')
            elif self.s['esc'] in ('charref', 'mixed') and c != ' ' \
                    and self.r.random() < .2:
                o.append(f'&#{ord(c)};')
            else:
                o.append(c)
        return ''.join(o)

    def text(self, t):
        k = self.s['esc']
        if k == 'mixed':
            k = self.r.choice(ESCAPES)
        if k == 'cdata' and all(ord(c) <= self.cs for c in t):
            i = self.r.randint(0, len(t))
            # a CDATA section cannot contain ]]>
            a, b = t[:i], t[i:]
            cd = b.replace(']]>', ']]]]><![CDATA[>')
            x = self.esc(a) + f'<![CDATA[{cd}]]>'
        else:
            x = self.esc(t)
        if self.s['layout'] == 'deep' and t:
            if self.r.random() < .3:
                x = '<!-- c -->' + x
            if self.r.random() < .3:
                x += '<?pi data?>'
            x = self.r.choice(['', ' ', '\n    ', '\t']) + x \
                + self.r.choice(['', ' ', '\n  '])
        return x

    def nl(self):
        lay = self.s['layout']
        if lay == 'compact':
            return ''
        e = '\r\n' if lay == 'crlf' else '\n'
        return e + '  ' * self.depth

    def open(self, tag, attrs=''):
        self.out.append(f'{self.nl()}<{tag}{attrs}>')
        self.depth += 1

    def close(self, tag):
        self.depth -= 1
        sp = ' ' if self.s['layout'] == 'deep' and self.r.random() < .2 \
            else ''
        self.out.append(f'{self.nl()}</{tag}{sp}>')

    def leaf(self, tag, t):
        if t is None:
            return
        if t == '':
            self.out.append(f'{self.nl()}<{tag}/>')
        else:
            self.out.append(f'{self.nl()}<{tag}>{self.text(t)}</{tag}>')

    def attr(self, i):
        if i is None:
            return ''
        return f' publicID="{self.esc(i, True)}"'

    def real(self, tag, r):
        self.open(tag)
        ks = [k for k in REAL if k in r]
        if self.s['order'] == 'shuffled':
            self.r.shuffle(ks)
        for k in ks:
            self.leaf(k, r[k])
        self.close(tag)


def _noise(w, rng, where):
    for _ in range(rng.randint(0, 2)):
        k = rng.randint(0, 4)
        if k == 0:
            w.open('comment')
            w.leaf('text', rng.choice(WORDS))
            w.close('comment')
        elif k == 1:
            w.open('description')
            w.leaf('text', rng.choice(WORDS))
            w.leaf('type', 'region name')
            w.close('description')
        elif k == 2 and where == 'event':
            w.open('stationMagnitude', ' publicID="sm%d"' % rng.randint(0, 9))
            w.leaf('originID', 'o')
            w.open('mag')
            w.leaf('value', _num(rng, 0, 9, 2))
            w.close('mag')
            w.leaf('type', 'MLst')
            w.close('stationMagnitude')
        elif k == 3 and where == 'event':
            w.open('amplitude', ' publicID="am%d"' % rng.randint(0, 9))
            w.open('genericAmplitude')
            w.leaf('value', _num(rng, 0, 9, 2))
            w.close('genericAmplitude')
            w.leaf('type', 'A')
            w.close('amplitude')
        elif k == 3 and where == 'origin':
            w.open('arrival', ' publicID="ar%d"' % rng.randint(0, 9))
            w.leaf('phase', 'P')
            w.leaf('azimuth', _num(rng, 0, 360, 2))
            w.close('arrival')
        elif k == 4 and where == 'event':
            w.open('pick', ' publicID="p%d"' % rng.randint(0, 9))
            w.open('time')
            w.leaf('value', '2001-01-01T00:00:00Z')
            w.close('time')
            w.leaf('evaluationMode', 'automatic')
            w.close('pick')


def write(events, style=None, ep_id='smi:x/ep'):
    """Text of a document."""
    w = _Writer(style or DEFAULT_STYLE)
    body = []
    w.out = body
    w.out.append('<q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" '
                 'xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">')
    w.depth = 1
    w.open('eventParameters', w.attr(ep_id))
    if w.s['order'] == 'shuffled':
        w.leaf('description', 'a catalog')
    for ev in events:
        w.open('event', w.attr(ev['id']))
        nz = random.Random(ev.get('noise') or 0)
        noise = bool(ev.get('noise'))
        parts = []

        def p_origin(o):
            w.open('origin', w.attr(o['id']))
            t = dict(o['time'], value=with_zone(
                o['time']['value'], o.get('zone'), w.s['zulu']))
            sub = [lambda: w.real('time', t),
                   lambda: w.real('latitude', o['latitude']),
                   lambda: w.real('longitude', o['longitude'])]
            if o.get('depth'):
                sub.append(lambda: w.real('depth', o['depth']))
            if o.get('mode') is not None:
                sub.append(lambda: w.leaf('evaluationMode', o['mode']))
            if o.get('quality'):
                def q():
                    w.open('quality')
                    for k, v in o['quality'].items():
                        w.leaf(k, v)
                    w.close('quality')
                sub.append(q)
            if w.s['order'] == 'shuffled':
                w.r.shuffle(sub)
            for f in sub:
                f()
            if noise:
                _noise(w, nz, 'origin')
            w.close('origin')

        def p_mag(m):
            w.open('magnitude', w.attr(m['id']))
            sub = [lambda: w.real('mag', m['mag']),
                   lambda: w.leaf('type', m['type'])]
            if m['ver'] is not None or m['ctime'] is not None:
                def ci():
                    w.open('creationInfo')
                    w.leaf('agencyID', 'ETHZ')
                    if m['ctime'] is not None:
                        w.leaf('creationTime', to_ctime(
                            m['ctime'], m.get('cform', 'Z')))
                    w.leaf('version', m['ver'])
                    w.close('creationInfo')
                sub.append(ci)
            if w.s['order'] == 'shuffled':
                w.r.shuffle(sub)
            for f in sub:
                f()
            if noise:
                _noise(w, nz, 'magnitude')
            w.close('magnitude')

        for o in ev['origins']:
            parts.append((p_origin, o))
        for m in ev['mags']:
            parts.append((p_mag, m))
        tail = [(lambda t: w.leaf('preferredOriginID', t), ev['po']),
                (lambda t: w.leaf('preferredMagnitudeID', t), ev['pm']),
                (lambda t: w.leaf('type', t), ev['type'])]
        if w.s['order'] == 'shuffled':
            # origins and magnitudes keep their relative order, the rest
            # may come anywhere between them
            for x in tail:
                parts.insert(w.r.randint(0, len(parts)), x)
        else:
            parts += tail
        for f, a in parts:
            f(a)
            if noise and nz.random() < .2:
                _noise(w, nz, 'event')
        w.close('event')
    w.close('eventParameters')
    w.depth = 0
    body.append(w.nl() + '</q:quakeml>')
    enc = {'utf-8-sig': 'utf-8'}.get(w.s['enc'], w.s['enc'])
    head = f'<?xml version="1.0" encoding="{enc.upper()}"?>' \
        if w.s['decl'] or enc in ('iso-8859-1', 'us-ascii') else ''
    return head + ''.join(body) + ('' if w.s['layout'] == 'compact' else '\n')


def encode(text, style):
    return text.encode(style['enc'])


# -------------------------------------------------- independent reading

def expected(events, include_all=True, include_quality=True, zulu=True):
    """One dictionary of texts per event (None: known to be missing)."""
    recs = []
    for ev in events:
        r = {'eventID': ev['id'], 'event_type': ev['type']}
        o = next((o for o in ev['origins'] if o['id'] == ev['po']), None)
        if o is None:
            r.update(time=None, latitude=None, longitude=None, depth=None,
                     evaluationmode=None)
        else:
            r['originID'] = o['id']
            for f in ('time', 'latitude', 'longitude', 'depth'):
                for k, v in (o.get(f) or {}).items():
                    if k == 'value':
                        r[f] = v if f != 'time' else with_zone(
                            v, o.get('zone'), zulu)
                    else:
                        r[f'{f}_{k}'] = v
            if o.get('mode') is not None:
                r['evaluationmode'] = o['mode']
            if include_quality:
                for k, v in (o.get('quality') or {}).items():
                    r[k.lower()] = v
        m = next((m for m in ev['mags'] if m['id'] == ev['pm']), None)
        if m is None:
            r.update(magnitude=None, magnitude_type=None)
        else:
            r['magnitudeID'] = m['id']
            if m['type'] is not None:
                r['magnitude_type'] = m['type']
            for k, v in m['mag'].items():
                r['magnitude' if k == 'value' else f'magnitude_{k}'] = v
        if include_all:
            for t in {x['type'] for x in ev['mags']} - {None}:
                if m is not None and m['type'] == t:
                    best = m
                else:
                    best = max((x for x in ev['mags'] if x['type'] == t),
                               key=_rank)
                for k, v in best['mag'].items():
                    r[f'magnitude_{t}' if k == 'value'
                      else f'magnitude_{t}_{k}'] = v
                r[f'magnitude_{t}_magnitudeID'] = best['id']
        recs.append(r)
    return recs


def _rank(m):
    return (float(m['ver']) if m['ver'] is not None else 0.0,
            m['ctime'] if m['ctime'] is not None else -1)


def clean_record(d):
    """A record with missing values left out."""
    return {k: v for k, v in d.items() if v is not None}


def diff_records(got, exp):
    """Difference of records as returned by the parser, or None."""
    if len(got) != len(exp):
        return f'{len(got)} records instead of {len(exp)}'
    for i, (g, e) in enumerate(zip(got, exp)):
        g, e = clean_record(g), clean_record(e)
        if g != e:
            ks = [k for k in sorted(set(g) | set(e)) if g.get(k) != e.get(k)]
            return (f'record {i} ({e.get("eventID")}): '
                    + ', '.join(f'{k}: {g.get(k)!r} instead of {e.get(k)!r}'
                                for k in ks[:4]))
    return None


UNC = re.compile('(_uncertainty|_lowerUncertainty|_upperUncertainty|'
                 '_confidenceLevel)$')
IDS = re.compile('(eventID|originID|magnitudeID)$')


def is_missing(v):
    return v is None or v is pd.NaT or v is pd.NA \
        or (isinstance(v, (float, np.floating)) and math.isnan(v))


def to_float(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


def diff_catalog(cat, exp, uncertainties, ids, tag=''):
    """Difference of a catalog from the expected records, or None."""
    if len(cat) != len(exp):
        return f'{tag}{len(cat)} events instead of {len(exp)}'
    cols = set()
    for r in exp:
        cols |= set(r)
    if not uncertainties:
        cols = {c for c in cols if not UNC.search(c)}
    if not ids:
        cols = {c for c in cols if not IDS.search(c)}
    got_cols = list(cat.columns)
    if len(set(got_cols)) != len(got_cols):
        return f'{tag}duplicated columns {got_cols}'
    if exp and not cols <= set(got_cols):
        return f'{tag}missing columns {sorted(cols - set(got_cols))}'
    extra = set(got_cols) - cols
    if exp:
        for c in extra:
            if not all(is_missing(v) for v in cat[c]):
                return f'{tag}unexpected column {c}'
    for c in extra:
        if (not uncertainties and UNC.search(c)) or \
                (not ids and IDS.search(c)):
            return f'{tag}unwanted column {c}'
    for c in sorted(cols):
        vals = list(cat[c])
        for i, (g, r) in enumerate(zip(vals, exp)):
            e = r.get(c)
            if not same_value(c, g, e):
                return (f'{tag}event {i} ({r.get("eventID")}) {c}: {g!r} '
                        f'instead of {e!r}')
    return None


def same_value(c, g, e):
    if c in ('magnitude_type', 'event_type') and e in NULLS:
        e = None
    if e is None:
        return is_missing(g)
    if is_missing(g):
        return False
    if c == 'time':
        t = pd.Timestamp(e)
        if t.tzinfo is not None:
            t = t.tz_convert(None)
        return pd.Timestamp(g) == t
    if c in NUMERIC:
        return isinstance(g, (int, float, np.number)) \
            and math.isclose(float(g), float(e), rel_tol=1e-11, abs_tol=0)
    if isinstance(g, str):
        return g == e
    x = to_float(e)
    return x is not None and float(g) == x
