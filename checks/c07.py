"""C07 each event record is made of exactly its own preferred data."""
import random

from dst import peer, qml, sched
from dst.core import Violation
from seismostats import Catalog
from seismostats.io import parser

PROP = 'C07'
LEVEL = 'exploration'
RULE = ('A run is a sequence of reads of 1-3 documents: complete reads, '
        'reads aborted by an exception at any line, reads of the same '
        'events with origins and magnitudes in another order, concurrent '
        'reads under a thread schedule, reads in a process with another '
        'hash seed; every result is compared with the independent reading '
        'and with the first result for that document; non-trivial if a '
        'document has an event with several origins or magnitudes; distinct '
        'by the whole scenario.')
STATE = ('(operation, number of origins and magnitudes, versions per type, '
         'preferred data missing or not)')
COMPONENTS = {
    'real': ['seismostats parser, Catalog', 'xml.sax / expat', 'pandas',
             'Python threads', 'processes with other hash seeds'],
    'stub': ['thread scheduler (seeded, cooperative)']}
ASSUMPTIONS = [
    'Versions are numbers, and the magnitudes of one type differ in version '
    'or creation time (each given for all or for none of those which only '
    'differ in it).',
    'A magnitude without a type cannot get a column of its own.',
    'Threads are preempted at line boundaries of the code under test.']
BUDGET = {'quick': dict(runs=6000, wall=65, recheck=25, shrink=60),
          'thorough': dict(runs=300000, wall=1200, recheck=200, shrink=120)}


class Boom(Exception):
    pass


def gen(rng, tier):
    docs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        n = rng.choice([1, 1, 2, 3, 4])
        docs.append(dict(events=qml.gen_events(rng, n, 1.0),
                         style=qml.gen_style(rng)))
    steps = []
    for _ in range(rng.randint(1, 5)):
        x = rng.random()
        s = dict(doc=rng.randrange(3), op='read',
                 flags=[rng.random() < .8, rng.random() < .7])
        if x < .25:
            s.update(op='abort', line=rng.choice([rng.randint(1, 80),
                                                  rng.randint(1, 2000)]))
        elif x < .45:
            s.update(op='shuffle', seed=rng.randrange(1 << 30))
        elif x < .62:
            nt = rng.choice([2, 2, 3])
            s.update(op='threads', docs=[rng.randrange(3)
                                         for _ in range(nt)],
                     schedule=sched.gen_schedule(rng, nt, 10, 900))
        elif x < .64:
            s.update(op='hash', seed=rng.choice([1, 2]))
        steps.append(s)
    steps.append(dict(doc=rng.randrange(3), op='read', flags=[True, True]))
    return dict(docs=docs, steps=steps)


def ordered(recs):
    return [[[k, v] for k, v in r.items()] for r in recs]


def columns(text, flags):
    recs = parser.parse_quakeml(text, *flags)
    return [ordered(recs), list(Catalog.from_dict(recs).columns)]


def run(scn, ctx):
    if not scn['docs']:
        return
    docs = scn['docs']
    texts = [qml.write(d['events'], d['style']) for d in docs]
    first = {}

    def check(k, i, flags, res, where):
        d = docs[i]
        exp = qml.expected(d['events'], *flags, d['style']['zulu'])
        recs = [dict(map(tuple, r)) for r in res[0]]
        x = qml.diff_records(recs, exp)
        if x:
            raise Violation('wrong-record', f'step {k} {where}: {x}')
        want = set().union(*(set(r) for r in exp)) if exp else None
        if want is not None and not set(res[1]) >= want:
            raise Violation('wrong-columns', f'step {k} {where}: missing '
                            f'{sorted(want - set(res[1]))}')
        key = (i, tuple(flags))
        if key not in first:
            first[key] = res
        elif first[key] != res:
            a, b = first[key], res
            raise Violation('not-repeatable', f'step {k} {where}: '
                            + (f'columns {b[1]} instead of {a[1]}'
                               if a[1] != b[1] else 'other order of keys'))

    for k, s in enumerate(scn['steps']):
        i = s['doc'] % len(docs)
        d, flags = docs[i], s['flags']
        op = s['op']
        if op == 'read':
            res = columns(texts[i], flags)
            check(k, i, flags, res, 'read')
        elif op == 'abort':
            with sched.fail_at(s['line'], Boom) as f:
                try:
                    columns(texts[i], flags)
                except Boom:
                    ctx.fault('exception at a line')
        elif op == 'shuffle':
            r = random.Random(s['seed'])
            evs = [dict(e, origins=r.sample(e['origins'], len(e['origins'])),
                        mags=r.sample(e['mags'], len(e['mags'])))
                   for e in d['events']]
            text = qml.write(evs, dict(d['style'], seed=s['seed']))
            recs = parser.parse_quakeml(text, *flags)
            x = qml.diff_records(recs, qml.expected(
                d['events'], *flags, d['style']['zulu']))
            if x:
                raise Violation('depends-on-order', f'step {k}: {x}')
            ctx.fault('reordered document')
        elif op == 'threads':
            ids = [j % len(docs) for j in s['docs']]
            if not ids:
                continue
            sc = sched.Scheduler([lambda j=j: columns(texts[j], flags)
                                  for j in ids], s['schedule'])
            for j, out in zip(ids, sc.run()):
                if out[0] == 'raised':
                    raise Violation('cannot-read', f'step {k} in a thread: '
                                    f'{type(out[1]).__name__}: {out[1]}')
                check(k, j, flags, out[1], 'in a thread')
            ctx.fault('preemption', sum(w[3] == 'preempt'
                                        for w in sc.switches))
            ctx.log(sc.switches)
            ctx.steps += sc.total
        elif op == 'hash':
            res = peer.peer(s['seed']).call('checks.c07', 'columns',
                                            texts[i], flags)
            check(k, i, flags, res, f'with hash seed {s["seed"]}')
            ctx.fault('other hash seed')
        ctx.log(k, op)
        ctx.probe(op)
        for e in d['events']:
            ts = [m['type'] for m in e['mags']]
            ctx.state(op, len(e['origins']), len(ts),
                      max([ts.count(t) for t in ts] or [0]),
                      e['po'] in [o['id'] for o in e['origins']],
                      e['pm'] in [m['id'] for m in e['mags']])
    if any(len(e['origins']) > 1 or len(e['mags']) > 1
           for d in docs for e in d['events']):
        ctx.nontrivial = repr(scn)
