"""C06 damaged QuakeML is never silently read as a smaller catalog."""
import requests

from checks import c05
from dst import disk, net, qml, sched
from dst.core import Violation
from seismostats import Catalog
from seismostats.io import parser

PROP = 'C06'
LEVEL = 'exploration'
RULE = ('A run is a sequence of 1-5 reads of damaged or intact documents: '
        'cut at any byte, zero filled (torn write), read errors at any '
        'offset, failing opens, connections cut or reset at any byte, '
        'exceptions inside the reader at any line; non-trivial if a '
        'document with events was damaged; distinct by (size of the '
        'document, damage, position, entry point) of its reads.')
STATE = '(entry point, kind of damage, element at the damage, outcome)'
COMPONENTS = {
    'real': ['seismostats parser, Catalog', 'xml.sax / expat', 'requests',
             'urllib3', 'http.client', 'pandas'],
    'stub': ['file content, opens and reads', 'TCP sockets',
             'HTTP service']}
ASSUMPTIONS = [
    'Lost text without any trace (a missing block in the middle of a text) '
    'cannot be detected by anybody; cuts, zero filled tails and blocks, and '
    'errors are simulated.',
    'A file with nothing but white space or a byte order mark may be read '
    'as empty or refused.']
BUDGET = {'quick': dict(runs=8000, wall=60, recheck=25, shrink=60),
          'thorough': dict(runs=400000, wall=1200, recheck=200, shrink=120)}


class Boom(Exception):
    pass


def gen(rng, tier):
    docs = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([0, 1, 2, 3, 6])
        docs.append(dict(events=qml.gen_events(rng, n, .8),
                         style=qml.gen_style(rng)))
    reads = []
    for _ in range(rng.randint(1, 4)):
        d = c05.gen_delivery(rng)
        kinds = ['cut', 'cut', 'cut', 'abort']
        if 'file' in d['entry']:
            kinds += ['eio', 'eio', 'zeros', 'zero_tail', 'eacces', 'emfile']
        if d['entry'] == 'response':
            kinds += ['reset', 'trunc', 'trunc']
        reads.append(dict(doc=rng.randrange(2), via=d,
                          damage=rng.choice(kinds), at=rng.random(),
                          tail=rng.random() < .3, line=rng.choice(
                              [rng.randint(1, 60), rng.randint(1, 3000)])))
        if rng.random() < .5:
            reads.append(dict(doc=rng.randrange(2),
                              via=c05.gen_delivery(rng), damage=None))
    reads.append(dict(doc=rng.randrange(2), via=c05.gen_delivery(rng),
                      damage=None))
    return dict(docs=docs, reads=reads)


def is_blank(data):
    if isinstance(data, bytes):
        data = data.replace(b'\xef\xbb\xbf', b'') \
            .replace(b'\xff\xfe', b'').replace(b'\x00', b'')
    return not data.strip()


def damaged_read(text, st, d, s, flags, ctx):
    """(result, what must happen: True (an error), False (the full
    content), None (either), 'empty', 'blank'), whether it failed)."""
    kind, e = s['damage'], d['entry']
    data = qml.encode(text, st)
    body = text if 'string' in e else data
    if s.get('tail'):
        # the last bytes are where an error is easiest to overlook
        at = len(body) - 1 - int(s['at'] * 40)
    else:
        at = int(s['at'] * len(body))
    at = max(0, min(at, len(body) - 1))
    end = len(text.rstrip()) if 'string' in e \
        else len(qml.encode(text.rstrip(), st))
    whole = body
    must = True if at < end else False
    if not must and st['enc'] == 'utf-16':
        must = None     # may end within a character
    plan = dict(size=d.get('size', 0), seed=d['seed'])
    if kind in ('trunc', 'reset'):
        # the reader may not need what is lost
        must = None
    elif kind == 'cut':
        body = body[:at]
        if is_blank(body):
            must = 'blank'
        if len(body) == 0:
            must = 'empty'
        ctx.fault('cut document')
    elif kind == 'zeros':
        body = body[:at] + b'\0' * min(512, len(body) - at) + body[at + 512:]
        must = body != whole
        ctx.fault('zero block')
    elif kind == 'zero_tail':
        body = body[:at] + b'\0' * (len(body) - at)
        must = body != whole
        ctx.fault('zero tail')
    elif kind == 'eio':
        plan['eio'] = at
        must = True
    elif kind in ('eacces', 'emfile'):
        plan[kind] = True
        must = True
    line = None
    if kind == 'abort':
        line = sched.fail_at(s['line'], Boom)
        must = None

    def go():
        if e == 'string':
            return parser.parse_quakeml(body, *flags)
        if e == 'cat_string':
            return Catalog.from_quakeml(body, flags[0], d['unc'], d['ids'],
                                        flags[1])
        if e in ('file', 'cat_file'):
            path = disk.store('doc.xml', body)
            dsk = disk.Disk(plan, ctx)
            with dsk.installed():
                if e == 'file':
                    return parser.parse_quakeml_file(path, *flags)
                return Catalog.from_quakeml(path, flags[0], d['unc'],
                                            d['ids'], flags[1])
        conf = dict(net.PLAIN_SERVICE, seed=d['seed'], framing=d['framing'],
                    coding=d['coding'], seg=d['seg'])
        svc = net.Service([], conf)
        svc.answer = lambda q: (200, body, d.get('ctype', 'text/xml'), 1)
        faults = {}
        if kind in ('trunc', 'reset'):
            faults = {'0': dict(kind=kind + '_body', at=s['at'])}
        sim = net.SimNet(svc, faults, ctx=ctx)
        with sim.installed():
            r = requests.get(net.URL, stream=True)
            return parser.parse_quakeml_response(r, *flags)

    if line:
        with line:
            try:
                got = go()
            except Boom:
                ctx.fault('exception at a line')
                return 'Boom', True, True
        # an exception that was raised must have come out
        return got, line.fired is not None, False
    try:
        got = go()
    except net.SimDeadlock as x:
        raise Violation('waits-forever', str(x))
    except Exception as x:
        if must in (False, 'empty'):
            raise Violation('cannot-read', f'{kind}: {type(x).__name__}: {x}')
        return type(x).__name__, must, True
    return got, must, False


def run(scn, ctx):
    if not scn['docs']:
        return
    sig = []
    for k, s in enumerate(scn['reads']):
        doc = scn['docs'][s['doc'] % len(scn['docs'])]
        st, evs, d = doc['style'], doc['events'], s['via']
        text = qml.write(evs, st)
        exp = qml.expected(evs, True, True, st['zulu'])
        where = f'read {k} {d["entry"]} {s["damage"]}'

        def same(got):
            if d['entry'].startswith('cat'):
                return qml.diff_catalog(got, exp, d['unc'], d['ids'])
            return qml.diff_records(got, exp)

        if s['damage'] is None:
            try:
                got = c05.read(text, st, d, (True, True), ctx)
            except Exception as e:
                raise Violation('no-recovery',
                                f'{where}: {type(e).__name__}: {e}')
            x = same(got)
            if x:
                raise Violation('trace-of-failed-read', f'{where}: {x}')
            sig.append((len(evs), d['entry']))
            continue
        got, must, raised = damaged_read(text, st, d, s, (True, True), ctx)
        ctx.log(k, raised, must, got if raised else len(got))
        ctx.probe('raised' if raised else 'returned')
        if not raised:
            if must is True:
                raise Violation('silent-loss',
                                f'{where} at {s["at"]}: {len(got)} of '
                                f'{len(evs)} events and no error')
            if must in ('empty', 'blank'):
                if len(got):
                    raise Violation('wrong-content', f'{where}: {len(got)} '
                                    'events in an empty document')
            else:
                x = same(got)
                if x:
                    raise Violation('silent-loss', f'{where}: {x}')
        sig.append((len(evs), len(text), s['damage'], round(s['at'], 4),
                    d['entry'], raised))
        tag = text[:int(s['at'] * len(text))].rpartition('<')[2][:12]
        ctx.state(d['entry'], s['damage'], tag.split('>')[0].split(' ')[0],
                  raised)
    if any(len(x) > 2 and x[0] for x in sig):
        ctx.nontrivial = repr(sig)
