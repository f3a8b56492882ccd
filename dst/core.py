"""Runner of deterministic simulations: seeded search over scenarios,
minimisation, replay files, evidence.

A check module provides
    PROP, LEVEL, RULE, COMPONENTS, ASSUMPTIONS, SAMPLES (budget per tier)
    gen(rng, tier)   -> scenario (JSON data); everything a run does is
                        determined by it
    run(scn, ctx)    -> raises Violation if the property is broken,
                        Invalid if the scenario makes no sense
                        (only possible for minimised scenarios)
"""
import collections
import gc
import hashlib
import json
import os
import random
import selectors
import signal
import subprocess
import sys
import time
import traceback

from . import disk

REAL_TIME = time.time
REAL_MONO = time.monotonic


class Violation(Exception):
    """The property is broken."""

    def __init__(self, kind, msg=''):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg = kind, str(msg)[:2000]


class Invalid(Exception):
    """The scenario makes no sense (minimisation went too far)."""


class Hang(BaseException):
    """The code under test makes no progress."""


class Ctx:
    """What a run reports besides its verdict. Never read by a run."""

    def __init__(self):
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = None
        self._h = hashlib.blake2b(digest_size=12)

    def log(self, *ev):
        """Event log; its digest is compared between runs of one seed."""
        self._h.update(repr(ev).encode('utf8', 'backslashreplace'))

    def digest(self):
        return self._h.hexdigest()

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(
            repr(key).encode('utf8', 'backslashreplace'),
            digest_size=8).hexdigest())


HANG_CPU_S = 120


def _on_alarm(*_):
    raise Hang(f'no result within {HANG_CPU_S} s of CPU time')


def execute(check, scn):
    """Run one scenario. Returns (outcome, ctx) with outcome None (held),
    ('violation', kind, msg), ('invalid',) or ('error', text)."""
    ctx = Ctx()
    out = None
    gc_was = gc.isenabled()
    gc.disable()
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
    from . import rngseam
    ctx.entropy = rngseam.Entropy(0)
    rngseam.ambient(0)
    try:
        with ctx.entropy:
            check.run(scn, ctx)
    except Violation as e:
        out = ('violation', e.kind, e.msg)
    except Invalid:
        out = ('invalid',)
    except Hang as e:
        out = ('violation', 'hang', str(e))
    except Exception as e:
        out = classify(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        if gc_was:
            gc.enable()
    return out, ctx


def classify(e):
    """An exception that no check expected: raised by the code under test,
    or by a check which cannot make sense of its results (violations), or
    by the environment (error)."""
    from . import env
    frames = traceback.extract_tb(e.__traceback__)
    last_sut = max((k for k, f in enumerate(frames) if f.filename.startswith(
        os.path.join(env.REPO, 'seismostats') + os.sep)), default=-1)
    last_own = max((k for k, f in enumerate(frames) if f.filename.startswith(
        env.VERIF + os.sep)), default=-1)
    if last_sut > last_own:
        return ('violation', f'unexpected {type(e).__name__}',
                ''.join(traceback.format_exception_only(e))[:500]
                + f' at {frames[last_sut].name}')
    text = ''.join(traceback.format_exception(e))
    if isinstance(e, (OSError, MemoryError, ImportError, AssertionError)):
        return ('error', text)
    return ('violation', f'unusable result, {type(e).__name__}', text[-1500:])


def scenario_rng(seed, prop, i):
    return random.Random(f'{seed}/{prop}/{i}')


# ------------------------------------------------------------- isolation

def in_child(fn, timeout):
    """Result of fn() computed in a forked child (JSON data), or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            res = fn()
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            disk.cleanup()
            os._exit(code)
    os.close(w)
    buf = b''
    end = REAL_MONO() + timeout
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    ok = False
    while True:
        left = end - REAL_MONO()
        if left <= 0:
            break
        if sel.select(left):
            d = os.read(r, 1 << 20)
            if not d:
                ok = True
                break
            buf += d
    sel.close()
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf) if ok else None
    except ValueError:
        return None


def run_sequence(check, scns):
    """Outcome of the last scenario after running all of them in order."""
    out, dig = None, None
    for s in scns:
        out, ctx = execute(check, s)
        dig = ctx.digest()
    return [list(out) if out else None, dig]


# ---------------------------------------------------------- minimisation

def _candidates(x, path=()):
    """Simpler variants of JSON data, coarse first."""
    if isinstance(x, list):
        n = len(x)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield x[:a] + x[a + size:]
            size //= 2
        for i in range(n):
            for c in _candidates(x[i]):
                yield x[:i] + [c] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            if x[k] is not None and k.startswith('opt_'):
                yield {**x, k: None}
        for k in x:
            for c in _candidates(x[k]):
                yield {**x, k: c}
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x != 0:
            seen = set()
            for c in (0, 1, x // 2, x - 1 if x > 0 else x + 1):
                if c != x and abs(c) <= abs(x) and c not in seen:
                    seen.add(c)
                    yield c
    elif isinstance(x, float):
        if x != 0.0 and x == x:
            for c in (0.0, 1.0, float(round(x)), round(x, 1)):
                if c != x and len(repr(c)) <= len(repr(x)):
                    yield c
    elif isinstance(x, str):
        # Short strings are names of operations; only long texts shrink.
        if len(x) > 16:
            yield x[:len(x) // 2]
            yield x[:-1]


def _size(x):
    return len(json.dumps(x))


def minimise(check, scns, kind, budget_s, log=print):
    """Smaller sequence of scenarios with the same kind of violation."""
    end = REAL_MONO() + budget_s
    tried = 0

    def fails(seq):
        nonlocal tried
        tried += 1
        r = in_child(lambda: run_sequence(check, seq), 150)
        return bool(r and r[0] and r[0][0] == 'violation'
                    and r[0][1] == kind)

    # drop scenarios before the failing one
    if len(scns) > 1:
        if fails(scns[-1:]):
            scns = scns[-1:]
        else:
            size = max(1, (len(scns) - 1) // 2)
            while size >= 1 and REAL_MONO() < end:
                a, progress = 0, False
                while a < len(scns) - 1 and REAL_MONO() < end:
                    c = scns[:a] + scns[min(a + size, len(scns) - 1):]
                    if len(c) < len(scns) and fails(c):
                        scns, progress = c, True
                    else:
                        a += size
                if not progress:
                    size //= 2
    # shrink each of them
    improved = True
    while improved and REAL_MONO() < end:
        improved = False
        for k in range(len(scns) - 1, -1, -1):
            seen = set()
            again = True
            while again and REAL_MONO() < end:
                again = False
                gen = getattr(check, 'shrink', _candidates)(scns[k])
                for c in gen:
                    if REAL_MONO() > end:
                        break
                    key = json.dumps(c, sort_keys=True)
                    if key in seen or _size(c) > _size(scns[k]) \
                            or c == scns[k]:
                        continue
                    seen.add(key)
                    if fails(scns[:k] + [c] + scns[k + 1:]):
                        scns = scns[:k] + [c] + scns[k + 1:]
                        improved = again = True
                        break
    return scns, tried


# --------------------------------------------------------------- workers

def _worker(check, seed, tier, wid, nw, limit, deadline, fd, recheck,
            known):
    out = os.fdopen(fd, 'w')

    def send(msg):
        out.write(json.dumps(msg) + '\n')
        out.flush()

    agg = dict(n=0, faults=collections.Counter(),
               probes=collections.Counter(), sim=0.0, steps=0, invalid=0,
               recheck=0, recheck_diff=[], trivial=0, known=0)
    states, nontriv, samples = set(), set(), []
    done = []
    i = wid
    t0 = REAL_MONO()
    while i < limit and REAL_MONO() < deadline:
        scn = check.gen(scenario_rng(seed, check.PROP, i), tier)
        scn = json.loads(json.dumps(scn))
        res, ctx = execute(check, scn)
        done.append(i)
        if res and res[0] == 'violation' and res[1] in known:
            agg['known'] += 1
            i += nw
            continue
        if res and res[0] == 'violation':
            send(dict(t='violation', i=i, done=done, kind=res[1],
                      msg=res[2]))
            break
        if res and res[0] == 'error':
            send(dict(t='error', i=i, text=res[1]))
            break
        agg['n'] += 1
        if res:
            agg['invalid'] += 1
        agg['faults'].update(ctx.faults)
        agg['probes'].update(ctx.probes)
        agg['sim'] += ctx.sim_time
        agg['steps'] += ctx.steps
        states |= ctx.states
        if ctx.nontrivial is not None:
            nontriv.add(hashlib.blake2b(
                ctx.nontrivial.encode('utf8', 'backslashreplace'),
                digest_size=8).hexdigest())
            if len(samples) < 2 and _size(scn) < 4000:
                samples.append(dict(index=i, scenario=scn))
        else:
            agg['trivial'] += 1
        if recheck and (i // nw) % recheck == 0:
            # determinism audit: the same scenario once more
            res2, ctx2 = execute(check, scn)
            agg['recheck'] += 1
            if ctx2.digest() != ctx.digest() or bool(res2) != bool(res):
                agg['recheck_diff'].append(i)
        if agg['n'] % 50 == 0:
            gc.collect()
        i += nw
    agg['wall'] = REAL_MONO() - t0
    send(dict(t='done', agg=agg, states=sorted(states),
              nontriv=sorted(nontriv), samples=samples,
              complete=i >= limit))
    out.close()


def explore(check, seed, tier, limit, wall_s, nw, recheck=0, known=()):
    """Run scenarios 0..limit-1 on nw processes. Returns a summary."""
    procs = {}
    sel = selectors.DefaultSelector()
    deadline = REAL_MONO() + wall_s
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for p in procs.values():
                    os.close(p['r'])
                _worker(check, seed, tier, w, nw, limit, deadline, wr,
                        recheck, known)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                disk.cleanup()
                os._exit(code)
        os.close(wr)
        procs[r] = dict(pid=pid, r=r, buf=b'', w=w, msgs=[], eof=False)
        sel.register(r, selectors.EVENT_READ)
    tot = dict(n=0, faults=collections.Counter(),
               probes=collections.Counter(), sim=0.0, steps=0, invalid=0,
               recheck=0, recheck_diff=[], trivial=0, known=0)
    states, nontriv, samples = set(), set(), []
    violations, errors, complete = [], [], True
    grace = deadline + HANG_CPU_S * 2 + 60
    open_ = len(procs)
    killed = False
    while open_:
        for key, _ in sel.select(1.0):
            p = procs[key.fd]
            d = os.read(key.fd, 1 << 20)
            if not d:
                sel.unregister(key.fd)
                os.close(key.fd)
                open_ -= 1
                _, st = os.waitpid(p['pid'], 0)
                p['status'] = st
                continue
            p['buf'] += d
            while b'\n' in p['buf']:
                line, p['buf'] = p['buf'].split(b'\n', 1)
                m = json.loads(line)
                if m['t'] == 'violation':
                    violations.append(m)
                elif m['t'] == 'error':
                    errors.append(m)
                else:
                    p['done'] = True
                    a = m['agg']
                    for k in ('n', 'sim', 'steps', 'invalid', 'recheck',
                              'trivial', 'known'):
                        tot[k] += a[k]
                    tot['recheck_diff'] += a['recheck_diff']
                    tot['faults'].update(a['faults'])
                    tot['probes'].update(a['probes'])
                    states |= set(m['states'])
                    nontriv |= set(m['nontriv'])
                    samples += m['samples']
                    complete &= m['complete']
        if (violations or REAL_MONO() > grace) and not killed:
            killed = True
            for p in procs.values():
                if 'status' not in p and not p.get('done'):
                    try:
                        os.kill(p['pid'], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            if not violations:
                errors.append(dict(t='error', i=-1,
                                   text='worker did not stop in time'))
    sel.close()
    for p in procs.values():
        if p['status'] != 0 and not p.get('done') and not killed:
            errors.append(dict(t='error', i=-1,
                               text=f"worker {p['w']} ended with "
                                    f"status {p['status']}"))
    return dict(tot=tot, states=states, nontriv=nontriv, samples=samples,
                violations=violations, errors=errors, complete=complete)


# --------------------------------------------------------- replay files

def replay_file(path, quiet=False):
    """Run a replay file in this process; True if it fails as recorded."""
    import importlib
    with open(path) as f:
        rep = json.load(f)
    check = importlib.import_module('checks.' + rep['property'].lower())
    outs = []
    for _ in range(1):
        outs.append(run_sequence(check, rep['scenarios']))
    (res, dig) = outs[0]
    ok = bool(res and res[0] == 'violation' and res[1] == rep['kind'])
    if not quiet:
        print(json.dumps(dict(reproduced=ok, result=res, digest=dig,
                              recorded=dict(kind=rep['kind'],
                                            digest=rep['digest']))))
    return ok and dig == rep['digest']


def fresh_replay(path, hashseed='0'):
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    p = subprocess.run(
        [sys.executable, os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), 'replay.py'), path],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=600)
    return p.returncode == 1, p.stdout.decode(errors='replace')


def load_findings(verif):
    path = os.path.join(verif, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('findings', [])


def main(check, argv):
    from . import env
    verif = env.VERIF
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = check.BUDGET[tier]
    limit = int(os.environ.get('DST_RUNS', budget['runs']))
    wall = float(os.environ.get('DST_WALL', budget['wall']))
    nw = int(os.environ.get('DST_WORKERS', min(8, os.cpu_count() or 1)))
    prop = check.PROP
    print(f'{prop} seed={seed} tier={tier} runs={limit} workers={nw} '
          f'repo={env.REPO}', flush=True)
    t0 = REAL_MONO()
    disk.scratch()
    # known findings first: they must still fail the way they are listed
    known = [f for f in load_findings(verif) if f['property'] == prop]
    known_kinds = set()
    for f in known:
        r = in_child(lambda: run_sequence(check, f['scenarios']), 300)
        if r and r[0] and r[0][0] == 'violation' and r[0][1] == f['kind']:
            print(f"KNOWN-FINDING: property={prop} {f['what']}", flush=True)
            known_kinds.add(f['kind'])
    if hasattr(check, 'prepare'):
        check.prepare(tier)
    summary = explore(check, seed, tier, limit, wall, nw,
                      recheck=budget.get('recheck', 20),
                      known=known_kinds)
    violations = summary['violations']
    status = 0
    reported = None
    if violations:
        v = min(violations, key=lambda m: len(m['done']))
        print(f"violation in run {v['i']}: {v['kind']}: {v['msg']}",
              flush=True)
        last = check_gen(check, seed, tier, v['i'])
        scns = [last]
        r = in_child(lambda: run_sequence(check, scns), 200)
        if not (r and r[0] and r[0][0] == 'violation'):
            # needs the history of its worker
            scns = [check_gen(check, seed, tier, j) for j in v['done']]
            r = in_child(lambda: run_sequence(check, scns), 300)
        for _ in range(3):
            # code that is not deterministic under the simulator
            if r and r[0] and r[0][0] == 'violation':
                break
            r = in_child(lambda: run_sequence(check, scns), 100)
        if r and r[0] and r[0][0] == 'violation':
            kind = r[0][1]
            scns, tried = minimise(check, scns, kind,
                                   budget.get('shrink', 60))
            r = in_child(lambda: run_sequence(check, scns), 200) or r
            os.makedirs(os.path.join(verif, 'replays'), exist_ok=True)
            path = os.path.join(verif, 'replays', f'{prop}-{seed}-{v["i"]}'
                                '.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, index=v['i'],
                               kind=r[0][1], message=r[0][2], digest=r[1],
                               minimisation_steps=tried, scenarios=scns), f,
                          indent=1)
            ok, text = fresh_replay(path)
            print(f'{r[0][1]}: {r[0][2]}')
            print(f'replay in a fresh process: '
                  f'{"reproduced exactly" if ok else text}')
            print(f'VIOLATION property={prop} replay={path}', flush=True)
            reported = path
            status = 1
        else:
            print('ERROR: violation does not replay', v, r)
            status = 2
    elif summary['errors']:
        print('ERROR of the harness:')
        for e in summary['errors'][:2]:
            print(e['i'], e['text'])
        status = 2
    wall_s = REAL_MONO() - t0
    tot = summary['tot']
    cov = dict(
        evaluations=tot['n'],
        distinct_nontrivial=len(summary['nontriv']),
        rule=check.RULE,
        samples=summary['samples'][:3] or [dict(
            index=0, scenario=check_gen(check, seed, tier, 0))],
        seeds=dict(base=seed, first=0, runs=tot['n'], planned=limit,
                   all_planned_runs_done=summary['complete']),
        runs_per_hour=round(tot['n'] / max(wall_s, 1e-9) * 3600),
        simulated_seconds=round(tot['sim'], 3),
        simulated_steps=tot['steps'],
        faults_injected=dict(sorted(tot['faults'].items())),
        probes=dict(sorted(tot['probes'].items())),
        distinct_states=len(summary['states']),
        state_measure=getattr(check, 'STATE', ''),
        trivial_runs=tot['trivial'],
        determinism_audit=dict(runs_repeated=tot['recheck'],
                               differing=tot['recheck_diff'][:10]),
        components=check.COMPONENTS,
        workers=nw,
        known_findings_seen=tot['known'],
    )
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough')
              else 'quick', seed=seed, level=check.LEVEL, coverage=cov,
              assumptions=check.ASSUMPTIONS, wall_s=round(wall_s, 2),
              violations=1 if reported else 0)
    if os.environ.get('DST_NO_EVIDENCE') is None:
        os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
        with open(os.path.join(verif, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {tot['n']} runs, {len(summary['nontriv'])} distinct "
          f"non-trivial, {len(summary['states'])} states, "
          f"{sum(tot['faults'].values())} faults, audit "
          f"{tot['recheck']}/{len(tot['recheck_diff'])} differing, "
          f"{wall_s:.1f} s, exit {status}", flush=True)
    return status


def check_gen(check, seed, tier, i):
    return json.loads(json.dumps(
        check.gen(scenario_rng(seed, check.PROP, i), tier)))
