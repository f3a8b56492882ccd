"""C04 batched downloads use bounded effort and recover once faults stop."""
import math

from dst import download as dl
from dst import net, qml
from dst.core import Violation
from seismostats import FDSNWSEventClient

PROP = 'C04'
LEVEL = "exploration"
RULE = ('A run is one client making a batched download that is hit by a '
        'fault or an outage (all requests from one on fail, also with '
        'error pages of status 200), followed by downloads after the '
        'faults stopped; non-trivial if a fault fired or more than one '
        'batch was needed; distinct by (events, batch size, requests '
        'used, fault kinds and positions) of all calls.')
STATE = '(events per batch size class, requests used, fault kind, outcome)'
COMPONENTS = {
    'real': ['seismostats client, parser, Catalog', 'requests', 'urllib3',
             'http.client', 'xml.sax / expat', 'pandas'],
    'stub': ['TCP sockets, name resolution, clock (simulated)',
             'FDSN event service (model)']}
ASSUMPTIONS = [
    'Progress is counted in requests. A request without answer for ever is '
    'not simulated (the client sets no timeout; every stall ends).',
    'Service answers as assumed for C01.']
BUDGET = {'quick': dict(runs=5000, wall=60, recheck=25, shrink=60),
          'thorough': dict(runs=300000, wall=1200, recheck=200, shrink=120)}


def gen(rng, tier):
    events = dl.gen_events(rng, tier)
    many = rng.random() < .03
    if many:
        # many batches, the events themselves do not matter here
        events = [qml.gen_event(rng, i, 0, ['ML'], quality=0)
                  for i in range(rng.randint(70, 160 if tier == 'quick'
                                             else 600))]
    conf = net.gen_service(rng)
    conf['redirect'] = False
    conf['seg'] = rng.choice(['whole', 'mtu'])
    n = len(events)
    calls = []
    for k in range(rng.choice([1, 2, 2, 3])):
        c = dl.gen_call(rng, events, plain=rng.random() < .7,
                        batch=rng.choice([1, 2, 3, 5, 10, 50, 1000,
                                          max(1, n // 2), max(1, n),
                                          n + 1]))
        if many:
            c = dl.gen_call(rng, events, plain=True,
                            batch=rng.choice([1, 1, 2]))
        elif n > 60:
            c['batch'] = max(c['batch'], 3)
        if rng.random() < .02:
            # no size at all
            c['batch'] = rng.choice([0, 0, -1, -10])
        fs = {}
        x = rng.random()
        if k == 0 or x < .3:
            if x < .4:
                fs = dl.gen_faults(rng)
            elif x < .8:
                fs = {'outage': [rng.choice([0, 0, 1, 2, 3, 4, 6, 10, 20]),
                                 net.gen_fault(rng)]}
        calls.append(dict(call=c, faults=fs))
    calls.append(dict(call=calls[0]['call'], faults={}))
    return dict(events=events, conf=conf, calls=calls)


class _Outage(dict):
    """Faults of all exchanges from one on."""

    def __init__(self, start, fault):
        self.start, self.fault = start, fault

    def get(self, k, default=None):
        return self.fault if int(k) >= self.start else default


def bound(n, bs):
    """Requests allowed to find and download n events in batches of bs."""
    nb = n // bs + 1
    return nb + 3 * math.ceil(math.log2(nb + 1)) + 8


def run(scn, ctx):
    conf = scn['conf']
    svc = net.Service(scn['events'], conf)
    sim = dl.Net(svc, ctx=ctx)
    sig = []
    with sim.installed():
        client = FDSNWSEventClient(net.URL)
        for k, s in enumerate(scn['calls']):
            c, fs = s['call'], s['faults']
            if fs.get('outage'):
                fs = _Outage(*fs['outage'])
            t0 = sim.clock.now
            r = dl.one_call(client, sim, c, fs)
            n = len(dl.expected_events(scn['events'], c))
            bs = c['batch']
            kinds = tuple((f[1], f[2]) for f in r['fires'])
            used = max(len(r['requests']), len(r['fires']))
            what = f'call {k}: {n} events in batches of {bs}'
            if bs < 1:
                ctx.probe('no batch size')
                d = r['ok'] and dl.diff_result(r['value'], c, scn['events'],
                                               [], conf['style']['zulu'])
                if d or used > 10:
                    raise Violation('no-batch-size', f'{what}: {used} '
                                    f'requests, {d}')
                continue
            limit = bound(n, bs)
            if kinds:
                # a service that is wrong about where its data end costs
                # at most the search over all offsets
                limit += 80
            if used > limit:
                raise Violation('too-many-requests',
                                f'{what}: {used} requests')
            if not kinds:
                per = {}
                for q in r['requests']:
                    lim = q['params'].get('limit')
                    if lim is None or not lim.isdigit() or int(lim) > bs:
                        raise Violation('batch-size', f'{what}: {q["pairs"]}')
                    if bs > 1 and int(lim) > 1:
                        off = int(q['params'].get('offset', 1))
                        for i in range(off, off + (q['events'] or 0)):
                            per[i] = per.get(i, 0) + 1
                if per and max(per.values()) > 2:
                    raise Violation('repeated-transfer',
                                    f'{what}: {max(per.values())} times')
                if not r['ok']:
                    e = r['error']
                    raise Violation('no-recovery',
                                    f'{what}: {type(e).__name__}: {e}')
                d = dl.diff_result(r['value'], c, scn['events'], [],
                                   conf['style']['zulu'])
                if d:
                    raise Violation('no-recovery', f'{what}: {d}')
            ctx.log(k, used, r['ok'])
            ctx.probe('calls ok' if r['ok'] else 'calls failed')
            if k and sig and not sig[-1][4] and r['ok']:
                ctx.probe('recovered after a failure')
            ctx.probe('simulated waiting > 1 min',
                      int(sim.clock.now - t0 > 60))
            sig.append((n, bs, used, kinds[:3], r['ok']))
            ctx.state(min(n // bs, 40), used, kinds[:1], r['ok'])
    if any(x[3] or x[0] > x[1] for x in sig):
        ctx.nontrivial = repr(sig)
