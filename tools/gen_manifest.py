"""Writes /verif/MANIFEST.json from properties.jsonl and the checks."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ('Pure function of its arguments: no concurrency, time, I/O, fault, '
        'random choice or history takes part, so there is no schedule or '
        'fault sequence for a simulation to control.')
NA = {
    'C38': 'Pure conversion between in-memory objects; no concurrency, time, '
           'I/O or faults (and openquake takes minutes to import here).',
}
T = 'deterministic simulation: '
TECH = {
    'C01': T + 'simulated sockets, clock and FDSN service, seeded network '
           'faults, reference model of the service',
    'C02': T + 'seeded call histories with faults against a recording '
           'simulated service',
    'C03': T + 'seeded thread schedules over a simulated network',
    'C04': T + 'seeded outages, request bounds and recovery after faults '
           'stop',
    'C05': T + 'seeded delivery of bytes (file, string, socket), reference '
           'reader',
    'C06': T + 'crash points and read faults on simulated storage and '
           'network',
    'C07': T + 'seeded document histories, aborted reads, threads, hash '
           'seeds; reference reader',
    'C08': T + 'write, torn or lost storage, serve and restart, round trip '
           'oracle',
    'C09': T + 'controlled random number generator with adversarial streams',
    'C10': T + 'controlled random number generator, processes and histories',
    'C11': T + 'controlled random number generator, reference model',
    'C12': T + 'seeded call histories with failures injected at any line',
    'C13': T + 'seeded operation histories with failures and restarts, '
           'reference model of the metadata',
    'C14': T + 'seeded call histories with failures injected at any line',
    'C15': T + 'seeded switches of the option between and during calls, '
           'differential',
    'C16': T + 'seeded thread schedules, compared with sequential runs',
    'C17': T + 'seeded histories, compared with a rebuilt catalog',
    'C18': T + 'seeded histories of plots with failures injected at any '
           'line, simulated tile server, independent derivation',
    'C19': T + 'seeded operation histories with failures and restarts, '
           'reference model',
}


def const(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)


checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    path = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(path):
        comp = const(path, 'COMPONENTS')
        checks.append(dict(
            property=i,
            quick_cmd=f'/opt/venv/bin/python run_check.py {i} --tier quick',
            thorough_cmd=f'/opt/venv/bin/python run_check.py {i} '
                         '--tier thorough',
            technique=TECH[i], level=const(path, 'LEVEL'),
            level_note='Seeded search, not exhaustive: no violation in the '
            'runs counted in the evidence. Real code: '
            + ', '.join(comp['real']) + '. Simulated: '
            + ', '.join(comp['stub']) + '. Assumes: '
            + ' '.join(const(path, 'ASSUMPTIONS'))))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, PURE if i >= 'C30' else 'Check not built yet.')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -c "import numpy, pandas, '
                   'requests, urllib3"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the seams are sockets, name resolution, '
               'clock, files, numpy random generators, threads and line '
               'events, all replaced from outside. replay.py FILE replays a '
               'violation.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
