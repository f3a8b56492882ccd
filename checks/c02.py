"""C02 requests carry exactly the filters of the current call."""
import pandas as pd

from dst import download as dl
from dst import net, qml
from dst.core import Violation
from seismostats import FDSNWSEventClient

PROP = 'C02'
LEVEL = "exploration"
RULE = ('A run is one client making 2-6 get_events calls with different '
        'filters, batch sizes and column options, some of which fail by '
        'injected faults; non-trivial if at least two calls with different '
        'parameter sets sent requests; distinct by the sequence of '
        '(parameter names, batch size, outcome).')
STATE = ('(names of the parameters left over from the previous call that '
         'the current one does not have, whether the previous call failed, '
         'batched or not)')
COMPONENTS = {
    'real': ['seismostats client, parser, Catalog', 'requests', 'urllib3',
             'http.client', 'xml.sax / expat', 'pandas'],
    'stub': ['TCP sockets, name resolution, clock (simulated)',
             'FDSN event service (model)']}
ASSUMPTIONS = [
    'Times are given as datetimes, without a time zone (UTC) or with one.',
    'What a parameter means is decided by its FDSN name; numbers are '
    'compared as numbers, times as instants, texts literally.']
BUDGET = {'quick': dict(runs=6000, wall=60, recheck=25, shrink=60),
          'thorough': dict(runs=300000, wall=1200, recheck=200, shrink=120)}


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 4, 6])
    types = rng.sample(qml.TYPES, 3)
    events = qml.gen_events(rng, n, .8, types)
    conf = net.gen_service(rng)
    calls = []
    for _ in range(rng.randint(2, 6)):
        c = dl.gen_call(rng, events)
        if rng.random() < .25 and calls:
            # the same filters again in a different mode
            c = dict(calls[rng.randrange(len(calls))]['call'])
            c['batch'] = rng.choice([None, 1, 2, 3])
        calls.append(dict(call=c, faults=dl.gen_faults(rng)
                          if rng.random() < .35 else {}))
    return dict(events=events, conf=conf, calls=calls,
                clients=rng.choice([1, 1, 1, 2]))


def run(scn, ctx):
    conf = scn['conf']
    svc = net.Service(scn['events'], conf)
    sim = dl.Net(svc, ctx=ctx)
    sig, prev = [], None
    with sim.installed():
        clients = [FDSNWSEventClient(net.URL)
                   for _ in range(max(1, scn['clients']))]
        for k, s in enumerate(scn['calls']):
            c = s['call']
            r = dl.one_call(clients[k % len(clients)], sim, c, s['faults'])
            names = sorted(dl.expected_params(c))
            for q in r['requests']:
                d = dl.params_match(q['pairs'], c)
                if d:
                    raise Violation('wrong-request',
                                    f'call {k} {names}: {d}')
                lim, off = (q['params'].get(x) for x in ('limit', 'offset'))
                if c['batch'] is None and (lim or off):
                    raise Violation('wrong-request',
                                    f'call {k}: limit={lim} offset={off} '
                                    'without batching')
                if c['batch'] is not None and lim is not None and (
                        not lim.isdigit() or int(lim) < 1
                        or int(lim) > c['batch']):
                    raise Violation('wrong-request',
                                    f'call {k}: limit={lim} with batch '
                                    f'size {c["batch"]}')
                if off is not None and (not off.isdigit() or int(off) < 1):
                    raise Violation('wrong-request',
                                    f'call {k}: offset={off}')
                if not q.get('path', '').endswith('/fdsnws/event/1/query'):
                    raise Violation('wrong-request',
                                    f'call {k}: path {q["path"]}')
            if r['ok']:
                check_catalog(r['value'], c, k, scn, ctx)
            elif not r['fires']:
                e = r['error']
                raise Violation('error-without-cause',
                                f'call {k}: {type(e).__name__}: {e}')
            ctx.log(k, r['ok'], len(r['requests']))
            ctx.probe('calls ok' if r['ok'] else 'calls failed')
            if prev is not None:
                left = set(prev[0]) - set(names)
                if left:
                    ctx.probe('previous call had other filters')
                ctx.state(tuple(sorted(left)), prev[1],
                          bool(c['batch']))
            if len(clients) == 1:
                prev = (names, r['ok'])
            sig.append((tuple(names), c['batch'], r['ok']))
    if len({s[0] for s in sig}) > 1:
        ctx.nontrivial = repr(sig)


def check_catalog(cat, c, k, scn, ctx):
    a = c['opt_args'] or {}
    for key, attr in (('start_time', 'starttime'), ('end_time', 'endtime')):
        got = getattr(cat, attr)
        if a.get(key) is None:
            if not qml.is_missing(got):
                raise Violation('wrong-metadata', f'call {k}: {attr} is '
                                f'{got} although none was requested')
        else:
            if qml.is_missing(got) or \
                    pd.Timestamp(got) != pd.Timestamp(a[key]):
                raise Violation('wrong-metadata', f'call {k}: {attr} is '
                                f'{got} instead of {a[key]}')
    cols = list(cat.columns)
    if not a.get('include_uncertainty') and \
            any(qml.UNC.search(x) for x in cols):
        raise Violation('wrong-columns', f'call {k}: uncertainties {cols}')
    if not a.get('include_ids') and any(qml.IDS.search(x) for x in cols):
        raise Violation('wrong-columns', f'call {k}: IDs {cols}')
    if not a.get('include_quality') and \
            any(q.lower() in cols for q in qml.QUALITY):
        raise Violation('wrong-columns', f'call {k}: quality {cols}')
    d = dl.diff_result(cat, c, scn['events'], [],
                       scn['conf']['style']['zulu'])
    if d:
        raise Violation('wrong-result', f'call {k}: {d}')
