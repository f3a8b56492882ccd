"""C01 a download is complete and exact, or it fails with an error."""
from dst import download as dl
from dst import net
from dst.core import Violation
from seismostats import FDSNWSEventClient

PROP = 'C01'
LEVEL = "exploration"
RULE = ('A run is one client making 1-4 get_events calls against the '
        'simulated service; it is non-trivial if the service held at least '
        'one matching event or a fault fired; distinct by the sequence of '
        '(outcome, number of events, batch size, fired faults with their '
        'position, framing, coding) of its calls.')
STATE = ('(batch count class, position of the fault in the call: counting '
         'or downloading, fault kind, framing, coding, outcome)')
COMPONENTS = {
    'real': ['seismostats client, parser, Catalog', 'requests', 'urllib3',
             'http.client', 'xml.sax / expat', 'pandas'],
    'stub': ['TCP sockets, name resolution, clock (simulated)',
             'FDSN event service (model)']}
ASSUMPTIONS = [
    'A body sent with status 200 is QuakeML (complete or damaged), visibly '
    'something else (not well-formed XML), or empty, and empty means no '
    'data; the service announces no data by 204, an empty body or, if asked '
    'to, 404.',
    'A connection closed inside the HTTP header or directly after it cannot '
    'be told from an empty answer without Content-Length.',
    'New events appear at the end of the listing while a download runs.']
BUDGET = {'quick': dict(runs=6000, wall=70, recheck=25, shrink=60),
          'thorough': dict(runs=400000, wall=1500, recheck=200, shrink=120)}


def gen(rng, tier):
    events = dl.gen_events(rng, tier)
    conf = net.gen_service(rng)
    growth = []
    if rng.random() < .2:
        from dst import qml
        for k in range(rng.randint(1, 4)):
            growth.append([rng.randint(1, 12),
                           qml.gen_event(rng, 1000 + k, .2, ['ML'])])
        growth.sort(key=lambda x: x[0])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3] if len(events) < 41 else [1])):
        c = dl.gen_call(rng, events)
        if calls and rng.random() < .35:
            # the same query again, the service may know more by now
            c = dict(rng.choice(calls)['call'])
        fs = dl.gen_faults(rng) if rng.random() < .65 else {}
        calls.append(dict(call=c, faults=fs))
    return dict(events=events, growth=growth, conf=conf, calls=calls)


def run(scn, ctx):
    conf = scn['conf']
    svc = net.Service(scn['events'], conf, scn['growth'])
    sim = dl.Net(svc, ctx=ctx)
    sig = []
    with sim.installed():
        client = FDSNWSEventClient(net.URL)
        for k, s in enumerate(scn['calls']):
            c = s['call']
            known = svc.visible()
            later = [g for g in scn['growth'] if g[0] > svc.answers]
            r = dl.one_call(client, sim, c, s['faults'])
            for q in r['requests']:
                ctx.log(q['status'], q['events'])
            nb = c['batch'] or 0
            at = ''
            if r['fires']:
                n = r['fires'][-1][1]
                qs = [q for q in r['requests'] if q['n'] == n]
                at = 'none' if not qs else (
                    'probe' if qs[0]['params'].get('limit') == '1' and nb > 1
                    else 'data')
            kinds = tuple(f[2] for f in r['fires'])
            if r['ok']:
                d = dl.diff_result(r['value'], c, known, later,
                                   conf['style']['zulu'])
                if d:
                    raise Violation(
                        'incomplete' if ' events instead of ' in d
                        else 'wrong-data',
                        f'call {k}: {d}; faults {kinds}')
                ctx.log('ok', len(r['value']), list(r['value'].columns))
                ctx.probe('returned')
                if r['fires']:
                    ctx.probe('returned in spite of a fault')
            else:
                ctx.log('raised', type(r['error']).__name__)
                ctx.probe('raised ' + type(r['error']).__name__)
                if not r['fires']:
                    e = r['error']
                    raise Violation('error-without-cause',
                                    f'call {k}: {type(e).__name__}: {e}')
            n = len(dl.expected_events(known, c))
            sig.append((r['ok'], n, nb, tuple((f[1], f[2])
                                              for f in r['fires'])))
            ctx.state(0 if not nb else min(5, n // nb), n % nb == 0 if nb
                      else 0, at, kinds[-1:], conf['framing'],
                      conf['coding'], r['ok'])
            ctx.probe('requests', len(r['requests']))
            if nb:
                ctx.probe('batched')
                if n and n % nb == 0:
                    ctx.probe('exact multiple of the batch size')
            if scn['growth'] and r['ok'] and len(r['value']) > n:
                ctx.probe('saw events added during the download')
    if any(s[1] or s[3] for s in sig):
        ctx.nontrivial = repr((sig, conf['framing'], conf['coding']))
