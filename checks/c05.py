"""C05 QuakeML is read the same however its bytes are delivered."""
import requests

from dst import disk, net, qml
from dst.core import Violation
from seismostats import Catalog
from seismostats.io import parser

PROP = 'C05'
LEVEL = 'exploration'
RULE = ('A run is one document in 1-3 spellings (layout, escaping, character '
        'encoding, order of elements), each read through some of the entry '
        'points (file, string, HTTP response, Catalog.from_quakeml) with a '
        'seeded split of its bytes; non-trivial if the document has an '
        'event; distinct by (document, spelling, delivery).')
STATE = '(entry point, read size class, framing, coding, encoding, layout)'
COMPONENTS = {
    'real': ['seismostats parser, Catalog', 'xml.sax / expat', 'requests',
             'urllib3', 'http.client', 'pandas'],
    'stub': ['file reads (split)', 'TCP sockets (split)', 'HTTP service']}
ASSUMPTIONS = [
    'Documents use the default namespace without prefix, as the FDSN '
    'services do, and give each element at most once per parent.',
    'Times are all with or all without zone designator within a document.']
BUDGET = {'quick': dict(runs=6000, wall=60, recheck=25, shrink=60),
          'thorough': dict(runs=300000, wall=1200, recheck=200, shrink=120)}


def gen_delivery(rng):
    e = rng.choice(['file', 'file', 'string', 'response', 'response',
                    'cat_file', 'cat_string'])
    d = dict(entry=e, seed=rng.randrange(1 << 30))
    if 'file' in e:
        d['size'] = rng.choice([0, 1, 2, 3, 7, 64, 1000, -1, -1])
    if e == 'response':
        d.update(framing=rng.choice(['cl', 'chunked', 'close']),
                 coding=rng.choice(['identity', 'gzip', 'deflate']),
                 ctype=rng.choice(net.CTYPES),
                 seg=rng.choice(['whole', 'mtu', 'tiny', 'mixed']))
    if e.startswith('cat'):
        d.update(unc=rng.random() < .5, ids=rng.random() < .5)
    return d


def gen(rng, tier):
    n = rng.choice([0, 1, 1, 2, 3, 5, 12])
    events = qml.gen_events(rng, n, 1.0)
    docs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        docs.append(dict(style=qml.gen_style(rng),
                         pad=rng.random() if rng.random() < .3 else None,
                         flags=[rng.random() < .8, rng.random() < .8],
                         via=[gen_delivery(rng)
                              for _ in range(rng.randint(1, 3))]))
    return dict(events=events, docs=docs)


def pad(text, frac):
    """Insert a comment that moves the 64 KiB boundary of reads into the
    document."""
    if frac is None:
        return text
    i = text.index('>', text.index('<q:quakeml')) + 1
    rest = len(text) - i
    n = 65536 - i - 7 - int(frac * rest)
    return text[:i] + '<!--' + 'p' * max(0, n) + '-->' + text[i:]


def read(text, style, d, flags, ctx):
    """Result of reading a document through an entry point."""
    e = d['entry']
    if e == 'string':
        return parser.parse_quakeml(text, *flags)
    if e == 'cat_string':
        return Catalog.from_quakeml(text, flags[0], d['unc'], d['ids'],
                                    flags[1])
    data = qml.encode(text, style)
    if e in ('file', 'cat_file'):
        path = disk.store('doc.xml', data)
        with disk.Disk(dict(size=d['size'], seed=d['seed']),
                       ctx).installed():
            if e == 'file':
                return parser.parse_quakeml_file(path, *flags)
            return Catalog.from_quakeml(path, flags[0], d['unc'], d['ids'],
                                        flags[1])
    conf = dict(net.PLAIN_SERVICE, seed=d['seed'], framing=d['framing'],
                coding=d['coding'], seg=d['seg'])
    svc = net.Service([], conf)
    svc.answer = lambda q: (200, data, d.get('ctype', 'text/xml'), 1)
    sim = net.SimNet(svc, ctx=ctx)
    with sim.installed():
        r = requests.get(net.URL, stream=True)
        return parser.parse_quakeml_response(r, *flags)


def run(scn, ctx):
    evs = scn['events']
    for doc in scn['docs']:
        st, flags = doc['style'], doc['flags']
        text = pad(qml.write(evs, st), doc['pad'])
        exp = qml.expected(evs, *flags, st['zulu'])
        for d in doc['via']:
            where = f'{d["entry"]} {st["enc"]} {st["layout"]} {st["esc"]}'
            try:
                got = read(text, st, d, flags, ctx)
            except net.SimDeadlock as e:
                raise Violation('waits-forever', f'{where}: {e}')
            except Exception as e:
                raise Violation('cannot-read',
                                f'{where}: {type(e).__name__}: {e}')
            if d['entry'].startswith('cat'):
                x = qml.diff_catalog(got, exp, d['unc'], d['ids'])
                ctx.log(d['entry'], list(got.columns), len(got))
            else:
                x = qml.diff_records(got, exp)
                ctx.log(d['entry'], got)
            if x:
                raise Violation('wrong-content', f'{where}: {x}')
            ctx.probe(d['entry'])
            ctx.fault('split reads', int(bool(d.get('size'))
                                         or d.get('seg', 'whole') != 'whole'))
            ctx.state(d['entry'], d.get('size'), d.get('framing'),
                      d.get('coding'), d.get('seg'), st['enc'],
                      st['layout'], st['esc'], doc['pad'] is not None)
    if evs and scn['docs']:
        ctx.nontrivial = repr(scn)
