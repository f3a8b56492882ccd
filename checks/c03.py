"""C03 concurrent downloads on one client do not affect each other."""
from dst import download as dl
from dst import net, qml, sched
from dst.core import Violation
from seismostats import FDSNWSEventClient

PROP = 'C03'
LEVEL = "exploration"
RULE = ('A run is 2-4 threads making 1-2 get_events calls each on one '
        'shared client under one schedule of preemptions at executed lines '
        'and network operations; non-trivial if at least one preemption '
        'happened inside a call; distinct by the sequence of (from, to, '
        'step of the thread) of all switches.')
STATE = ('(function-independent position: number of requests each thread '
         'had sent at a preemption)')
COMPONENTS = {
    'real': ['seismostats client, parser, Catalog', 'requests', 'urllib3',
             'http.client', 'xml.sax / expat', 'pandas', 'Python threads'],
    'stub': ['thread scheduler (seeded, cooperative)', 'locks of the code '
             'under test (cooperative)', 'TCP sockets, name resolution, '
             'clock (simulated)', 'FDSN event service (model)']}
ASSUMPTIONS = [
    'Threads are preempted at line boundaries of the code under test and '
    'at network operations, not inside library or C code.',
    'Service answers as assumed for C01.']
BUDGET = {'quick': dict(runs=3000, wall=75, recheck=20, shrink=90),
          'thorough': dict(runs=200000, wall=1500, recheck=100, shrink=180)}


def gen(rng, tier):
    n = rng.choice([1, 2, 4, 8])
    types = rng.sample(qml.TYPES, 3)
    events = qml.gen_events(rng, n, .5, types, .2)
    conf = net.gen_service(rng)
    conf['seg'] = rng.choice(['whole', 'whole', 'mtu', 'mixed'])
    tasks = []
    nt = rng.choice([2, 2, 3, 4])
    for _ in range(nt):
        calls = [dl.gen_call(rng, events)
                 for _ in range(rng.choice([1, 1, 2]))]
        tasks.append(dict(calls=calls, faults=dl.gen_faults(rng, 1)
                          if rng.random() < .3 else {}))
    return dict(events=events, conf=conf, tasks=tasks,
                schedule=sched.gen_schedule(rng, nt, 16, 2500))


def run(scn, ctx):
    conf = scn['conf']
    svc = net.Service(scn['events'], conf)
    sim = dl.Net(svc, faults={str(k): t['faults'] for k, t
                              in enumerate(scn['tasks'])},
                 ctx=ctx, tagged=True)
    if not scn['tasks']:
        return
    client = FDSNWSEventClient(net.URL)
    outs = [[] for _ in scn['tasks']]

    def body(k):
        def f():
            for c in scn['tasks'][k]['calls']:
                r0 = len(sim.requests)
                f0 = len(sim.fires)
                try:
                    o = dict(ok=True,
                             value=client.get_events(**dl.call_kwargs(c)))
                except Exception as e:
                    o = dict(ok=False, error=e)
                o['requests'] = [q for q in sim.requests[r0:]
                                 if q['tag'] == k]
                o['fires'] = [x for x in sim.fires[f0:] if x[0] == k]
                outs[k].append(o)
        return f

    with sim.installed():
        s = sched.Scheduler([body(k) for k in range(len(outs))],
                            scn['schedule'])
        res = s.run()
    for k, r in enumerate(res):
        if r[0] == 'raised':
            if isinstance(r[1], net.SimDeadlock):
                raise Violation('waits-forever', f'thread {k}')
            if isinstance(r[1], dl.TooManyRequests):
                raise Violation('unbounded-requests', f'thread {k}')
            raise r[1]
    pre = [w for w in s.switches if w[3] == 'preempt']
    ctx.log(s.switches, s.steps)
    ctx.steps += s.total
    ctx.probe('preemptions', len(pre))
    for k, t in enumerate(scn['tasks']):
        for j, (c, o) in enumerate(zip(t['calls'], outs[k])):
            where = f'thread {k} call {j}'
            for q in o['requests']:
                d = dl.params_match(q['pairs'], c)
                if d:
                    raise Violation('wrong-request', f'{where}: {d}')
            if o['ok']:
                d = dl.diff_result(o['value'], c, scn['events'], [],
                                   conf['style']['zulu'])
                if d:
                    raise Violation('wrong-result', f'{where}: {d}')
                a = c['opt_args'] or {}
                for key, attr in (('start_time', 'starttime'),
                                  ('end_time', 'endtime')):
                    got = getattr(o['value'], attr)
                    exp = dl._dt(a[key]) if a.get(key) else None
                    if (exp is None) != qml.is_missing(got) or \
                            (exp is not None and got != exp):
                        raise Violation('wrong-metadata',
                                        f'{where}: {attr} {got}')
                ctx.log(k, j, 'ok', len(o['value']))
                ctx.probe('calls ok')
            else:
                ctx.log(k, j, type(o['error']).__name__)
                ctx.probe('calls failed')
                if not o['fires']:
                    e = o['error']
                    raise Violation('error-without-cause',
                                    f'{where}: {type(e).__name__}: {e}')
    if pre:
        ctx.nontrivial = repr(s.switches)
        for w in pre:
            ctx.state(w)
