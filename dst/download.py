"""Download scenarios shared by C01-C04: calls of get_events against the
simulated service, the expected requests and the expected catalogs."""
import math
from datetime import datetime, timezone

from . import net, qml
from .core import Violation

MAX_REQUESTS = 4000


class TooManyRequests(BaseException):
    pass


class Net(net.SimNet):
    def on_request(self, sock, head, body):
        if len(self.requests) > MAX_REQUESTS:
            raise TooManyRequests()
        return super().on_request(sock, head, body)


# ------------------------------------------------------------- generation

def gen_events(rng, tier, big=True):
    k = rng.random()
    if k < .08:
        n = 0
    elif k < .6:
        n = rng.randint(1, 9)
    elif k < .93 or not big:
        n = rng.randint(10, 40)
    else:
        n = rng.randint(41, 150 if tier == 'quick' else 400)
    rich = 1.0 if n <= 12 else .15
    # one vocabulary of magnitude types per service
    types = rng.sample(qml.TYPES, rng.randint(1, 5))
    return qml.gen_events(rng, n, rich, types,
                          quality=.5 if n <= 12 else .1)


def _val(rng, events, what):
    """A threshold near the data, never equal to it."""
    if not events:
        return rng.uniform(0, 4)
    e = rng.choice(events)
    try:
        if what == 'mag':
            v = float(e['mags'][0]['mag']['value'])
        else:
            v = float(e['origins'][0][what]['value'])
    except IndexError:
        v = 1.0
    return round(v + rng.uniform(-.5, .5), 3) + 0.000377


def gen_call(rng, events, plain=False, batch=None):
    c = dict(batch=None, opt_args={}, kw={})
    a = c['opt_args']
    if rng.random() < .6:
        n = len(events)
        c['batch'] = rng.choice([1, 2, 3, 5, 7, 10, 50, 1000, max(1, n),
                                 n + 1, max(1, n - 1), max(1, n // 2),
                                 max(1, n // 3)])
        if n > 60:
            c['batch'] = max(c['batch'], 3)
    if batch is not None:
        c['batch'] = batch
    if plain:
        return c
    for name, lo, hi in (('latitude', -90, 90), ('longitude', -180, 180)):
        for side in ('min', 'max'):
            if rng.random() < .12:
                v = _val(rng, events, name)
                if rng.random() < .3:
                    v = float(lo if side == 'min' else hi)
                if rng.random() < .1:
                    v = 0
                a[f'{side}_{name}'] = v
    if rng.random() < .35:
        a['min_magnitude'] = rng.choice([_val(rng, events, 'mag') - 1.0,
                                         0, 0.0, -2.000377])
    if rng.random() < .15:
        a['max_magnitude'] = rng.choice([_val(rng, events, 'mag') + 1.0,
                                         0, 10])
    if rng.random() < .5:
        a['delta_m'] = rng.choice([0.1, 0.01, 0.2, None, 0, 0.0])
    if rng.random() < .4:
        a['start_time'] = rng.choice(
            ['0980-01-01T00:00:00', '1850-01-01T00:00:00', '1969-12-31T23:59:59.900000',
             '2000-06-15T12:00:00', '1999-12-31T23:59:59',
             '2000-06-15T01:30:00+02:00'])
    if rng.random() < .4:
        a['end_time'] = rng.choice(
            ['2101-01-01T00:00:00', '2020-03-01T01:02:03.999999',
             '1057-12-03T00:00:00', '2016-12-31T00:00:00', '2200-01-01T00:00:00',
             '2020-12-31T20:00:00.5-05:30'])
    if rng.random() < .6:
        a['include_all_magnitudes'] = rng.choice([True, True, False, None])
    if rng.random() < .1:
        a['event_type'] = rng.choice(['earthquake', 'earthquake,explosion',
                                      'quarry blast', 'a & b < c'])
    for f in ('include_uncertainty', 'include_ids', 'include_quality'):
        if rng.random() < .4:
            a[f] = rng.random() < .7
    if rng.random() < .3:
        for k, v in rng.sample([('nodata', '404'), ('nodata', 404),
                                ('nodata', 204), ('nodata', '204'),
                                ('orderby', 'time-asc'), ('format', 'xml'),
                                ('contributor', 'A&B=C é'),
                                ('updatedafter', '2020-01-01T00:00:00'),
                                ('maxdepth', 12.5), ('catalog', 'a+b c'),
                                ('includearrivals', False),
                                ('includeallmagnitudes', 'true'),
                                ('eventtype', 'earthquake'),
                                ('minmagnitude', 1.25),
                                ('maxlatitude', 46.5)],
                               rng.randint(1, 2)):
            c['kw'][k] = v
    return c


def gen_faults(rng, n=None):
    """Faults by the number of the exchange within a call."""
    fs = {}
    for _ in range(n if n is not None else rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 40])
        fs[str(k)] = net.gen_fault(rng)
    return fs


# ------------------------------------------------------------ expectation

def _dt(s):
    return datetime.fromisoformat(s)


def call_kwargs(c):
    a = dict(c.get('opt_args') or {})
    for k in ('start_time', 'end_time'):
        if a.get(k) is not None:
            a[k] = _dt(a[k])
    if c.get('batch') is not None:
        a['batch_size'] = c['batch']
    a.update(c.get('kw') or {})
    return a


def expected_params(c):
    """FDSN parameters of a call, without limit and offset."""
    a = c.get('opt_args') or {}
    p = {}
    for k, q in (('start_time', 'starttime'), ('end_time', 'endtime')):
        if a.get(k) is not None:
            t = _dt(a[k])
            if t.tzinfo is not None:
                t = t.astimezone(timezone.utc)
            p[q] = t.replace(tzinfo=None).isoformat()
    for k, q in (('min_latitude', 'minlatitude'),
                 ('max_latitude', 'maxlatitude'),
                 ('min_longitude', 'minlongitude'),
                 ('max_longitude', 'maxlongitude'),
                 ('max_magnitude', 'maxmagnitude'),
                 ('event_type', 'eventtype')):
        if a.get(k) is not None:
            p[q] = a[k]
    if a.get('min_magnitude') is not None:
        dm = a.get('delta_m', 0.1)
        p['minmagnitude'] = a['min_magnitude'] - (0 if dm is None
                                                  else dm / 2)
    if a.get('include_all_magnitudes', False) is not None:
        p['includeallmagnitudes'] = a.get('include_all_magnitudes', False)
    p.update(c.get('kw') or {})
    return p


def params_match(got_pairs, c):
    """None or how the parameters of a request differ from the call's."""
    exp = expected_params(c)
    got = dict(got_pairs)
    if len(got) != len(got_pairs):
        return f'repeated parameters {got_pairs}'
    rest = {k: v for k, v in got.items() if k not in ('limit', 'offset')}
    if set(rest) != set(exp):
        return f'parameters {sorted(rest)} instead of {sorted(exp)}'
    for k, e in exp.items():
        g = rest[k]
        if isinstance(e, bool):
            ok = g.lower() == str(e).lower()
        elif isinstance(e, (int, float)):
            try:
                ok = math.isclose(float(g), e, rel_tol=1e-9, abs_tol=1e-9)
            except ValueError:
                ok = False
        elif k in ('starttime', 'endtime'):
            ok = net.instant(g) == net.instant(e)
        else:
            ok = g == str(e)
        if not ok:
            return f'{k}={g!r} instead of {e!r}'
    return None


def expected_events(events, c):
    q = {k: str(v) for k, v in expected_params(c).items()}
    return net.Service.select(events, q)


def diff_result(cat, c, events, growth, zulu):
    """Difference of a returned catalog from the answer of the service."""
    a = c.get('opt_args') or {}
    base = expected_events(events, c)
    extra = expected_events([e for _, e in growth], c)
    # a service without data may have an unspecific set of columns
    lo, hi = len(base), len(base) + len(extra)
    if not lo <= len(cat) <= hi:
        return f'{len(cat)} events instead of {lo}' + (
            f' to {hi}' if hi > lo else '')
    exp = qml.expected(base + extra[:len(cat) - lo], True,
                       bool(a.get('include_quality', False)), zulu)
    return qml.diff_catalog(cat, exp, bool(a.get('include_uncertainty')),
                            bool(a.get('include_ids')))


# --------------------------------------------------------------- one call

def one_call(client, sim, c, faults):
    """Returns dict(ok, value/error, requests, fires)."""
    r0, f0 = len(sim.requests), len(sim.fires)
    sim.faults = {} if faults is None else faults
    sim.ordinal = {}
    out = {}
    try:
        out = dict(ok=True, value=client.get_events(**call_kwargs(c)))
    except net.SimDeadlock as e:
        raise Violation('waits-forever', str(e))
    except TooManyRequests:
        raise Violation('unbounded-requests',
                        f'more than {MAX_REQUESTS} requests, last '
                        f'{str(sim.requests[-1]["pairs"])[:300]}')
    except Exception as e:
        out = dict(ok=False, error=e)
    out['requests'] = sim.requests[r0:]
    out['fires'] = sim.fires[f0:]
    return out
