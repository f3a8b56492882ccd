"""C11 Monte Carlo completeness tests follow their definition."""
import numpy as np

from dst import analyses, rngseam
from dst.core import Violation
from seismostats import Catalog
from seismostats.analysis.estimate_mc import estimate_mc_ks, ks_test_gr
from seismostats.utils.simulate_distributions import \
    simulate_magnitudes_binned

PROP = 'C11'
LEVEL = 'exploration'
RULE = ('A run performs one to three tests (goodness of fit of a sample, or '
        'a search for mc on arrays or a catalog) on chosen random streams, '
        'replays the streams and derives distances, p-values and choice '
        'independently; non-trivial if a synthetic sample was drawn or '
        'given distances were compared; distinct by the whole scenario.')
STATE = '(operation, size of the sample, kind of stream, outcome)'
COMPONENTS = {
    'real': ['ks_test_gr, estimate_mc_ks, Catalog.estimate_mc_ks, b-value '
             'estimators, simulate_magnitudes_binned', 'NumPy'],
    'stub': ['random stream (doubles chosen one by one)']}
ASSUMPTIONS = [
    'The synthetic samples themselves are those of '
    'simulate_magnitudes_binned, which C09 is about.',
    'Where a simulated magnitude lies beyond the largest considered one '
    '(exceeded with a probability of less than 1e-3), distances are '
    'compared with the corresponding tolerance.']
BUDGET = {'quick': dict(runs=9000, wall=50, recheck=25, shrink=60),
          'thorough': dict(runs=800000, wall=1200, recheck=200, shrink=120)}
LN10 = float(np.log(10))
EPS = 1e-9


def gen_sample(rng):
    d = rng.choice(analyses.DELTAS)
    lo = rng.choice([0, 0, 10, -7, 20])
    lo = max(-int(5 / d), min(lo, int(5 / d)))
    n = rng.choice([0, 1, 2, 3, 5, 12, 30, 60])
    b = rng.choice([.6, 1., 1., 1.7])
    top = int(3 / d) + 1
    k = [lo + min(top, int(rng.expovariate(b * LN10) / d)) for _ in range(n)]
    if rng.random() < .1:
        k = [lo] * n
    elif rng.random() < .3:
        # incomplete below some magnitude
        cut = lo + rng.randint(0, max(1, int(1 / d)))
        k = [x for x in k if x >= cut or rng.random() < .3]
    return d, lo, k


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d, lo, k = gen_sample(rng)
        o = dict(d=d, lo=lo, k=k, stream=rngseam.gen_stream(rng),
                 n=rng.choice([1, 2, 5, 5, 12, 40]),
                 b=rng.choice([1., 1., .5, 2., round(rng.uniform(.3, 2.5),
                                                     2)]))
        if rng.random() < .45:
            o['op'] = 'gr'
            o['weights'] = [rng.choice([1, 1, .5, 0, 3]) for _ in k] \
                if rng.random() < .25 else None
            if rng.random() < .25:
                o['ks'] = [round(rng.random() * .6, 3)
                           for _ in range(rng.choice([1, 5, 20]))]
            o['how'] = rng.choice(['array', 'array', 'list'])
        else:
            o['op'] = rng.choice(['mc', 'mc', 'cat'])
            o['method'] = rng.choice(['classic', 'classic', 'utsu',
                                      'positive', 'more'])
            if rng.random() < .35:
                o['opt_b'] = o['b']
            if rng.random() < .6:
                hi = max(k, default=lo)
                o['mcs'] = [rng.randint(lo - 2, max(lo, hi - 1))
                            for _ in range(rng.choice([1, 2, 4, 6]))]
            o['stop'] = rng.random() < .5
            o['p'] = rng.choice([.1, .1, .5, .01, 0., 1., .9])
            o['times'] = rng.random() < .4
            o['weights'] = [rng.choice([1, 1, .5, 3]) for _ in k] \
                if rng.random() < .3 else None
            if rng.random() < .3:
                o['ks'] = rng.randrange(1000)
            o['opt_dmc'] = rng.choice([None, None, 2])
        ops.append(o)
    return dict(ops=ops)


def distance(bins, weights, b, d):
    """Largest difference of the empirical and the theoretical CDF. bins:
    number of bins above mc of each event."""
    bins = np.asarray(bins, dtype=int)
    w = np.ones(len(bins)) if weights is None else np.asarray(weights, float)
    top = int(bins.max())
    h = np.zeros(top + 1)
    for j, x in zip(bins, w):
        h[j] += x
    emp = np.cumsum(h) / w.sum()
    th = 1 - np.exp(-b * LN10 * d * (np.arange(top + 1) + 1))
    return float(np.max(np.abs(emp - th)))


def to_bins(m, mc, d):
    return np.round((np.asarray(m, float) - mc) / d).astype(int)


def synthetic(n_sample, b, mc, d, n, weights, top):
    """Own distances of the samples on the current stream, their
    tolerance."""
    own = []
    limit = max(np.log10(n_sample * n * 1e3) / b + mc, top)
    tols = []
    for _ in range(n):
        s = simulate_magnitudes_binned(n_sample, b, mc, d)
        k = to_bins(s, mc, d)
        beyond = s > limit - d
        tol = EPS
        if beyond.any():
            tol = 2e-3 / (n * n_sample) + EPS
            # what lies beyond counts as not reached yet
            last = int(np.floor((limit - mc) / d + EPS))
            own.append((distance(np.minimum(k, 10 ** 5), weights, b, d),
                        [partial(k, weights, b, d, j) for j in
                         (last - 1, last, last + 1) if j >= 0]))
        else:
            own.append((distance(k, weights, b, d), None))
        tols.append(tol)
    return own, tols


def partial(bins, weights, b, d, last):
    """Distance when only the bins up to `last` are looked at."""
    w = np.ones(len(bins)) if weights is None else np.asarray(weights, float)
    h = np.zeros(last + 1)
    for j, x in zip(bins, w):
        if j <= last:
            h[j] += x
    emp = np.cumsum(h) / w.sum()
    th = 1 - np.exp(-b * LN10 * d * (np.arange(last + 1) + 1))
    return float(np.max(np.abs(emp - th)))


def same(x, own, tol):
    exact, parts = own
    if abs(x - exact) <= tol:
        return True
    return parts is not None and any(abs(x - q) <= tol for q in parts)


def test_gr(o, ctx, k):
    d, lo = o['d'], o['lo']
    mc = analyses.mag(lo, d)
    m = [analyses.mag(x, d) for x in o['k']]
    w = o['weights']
    if w is not None:
        w = np.array(w, float)[:len(m)]
        if len(w) != len(m) or w.sum() <= 0 \
                or len({x for x, y in zip(m, w) if y > 0}) < 2:
            w = None
    arg = np.array(m) if o['how'] == 'array' else list(m)
    keep = list(m)
    kw = {} if w is None else dict(weights=w)
    if o.get('ks'):
        kw['ks_ds'] = np.array(o['ks'])
    n_forced = rngseam.load(o['stream'])
    ctx.fault('forced draw', n_forced)
    st = np.random.get_state()
    before = rngseam.state()
    with np.errstate(all='ignore'):
        p, obs, ks = ks_test_gr(arg, mc, d, o['b'], n=o['n'], **kw)
    after = rngseam.state()
    ctx.log(k, p, obs, list(ks))
    if list(arg) != keep:
        raise Violation('input-changed', f'{keep} became {list(arg)}')
    if len(set(m)) < 2:
        if (p, obs, list(ks)) != (0, 1, []):
            raise Violation('degenerate-sample', f'{m}: {p, obs, ks}')
        if after != before:
            raise Violation('stream-used', f'degenerate sample {m}')
        return 'degenerate'
    own = distance(to_bins(m, mc, d), w, o['b'], d)
    if not abs(obs - own) <= EPS:
        raise Violation('observed-distance', f'{obs} instead of {own}: '
                        f'{m}, mc {mc}, b {o["b"]}, weights {w}')
    ks = np.asarray(ks)
    if o.get('ks'):
        if after != before:
            raise Violation('stream-used', 'distances were given')
        if ks.tolist() != o['ks']:
            raise Violation('given-distances', f'{ks} for {o["ks"]}')
    else:
        if len(ks) != o['n']:
            raise Violation('number-of-distances', f'{len(ks)}, n={o["n"]}')
        np.random.set_state(st)
        with np.errstate(all='ignore'):
            owns, tols = synthetic(len(m), o['b'], mc, d, o['n'], w, max(m))
        if rngseam.state() != after:
            raise Violation('stream', 'not n samples of the size of the '
                            'data were drawn')
        for x, y, t in zip(ks, owns, tols):
            if not (0 <= x <= 1):
                raise Violation('distance-range', f'{x}')
            if not same(x, y, t):
                raise Violation('synthetic-distance', f'{x} instead of {y} '
                                f'within {t}, {m}, mc {mc} d {d} '
                                f'b {o["b"]} weights {w}')
        # the returned distances give the same answer again
        again = rngseam.state()
        kw['ks_ds'] = ks.copy()
        p2, obs2, ks2 = ks_test_gr(arg, mc, d, o['b'], n=o['n'], **kw)
        if p2 != p or abs(obs2 - obs) > EPS or list(ks2) != list(ks):
            raise Violation('round-trip', f'{p2, obs2} instead of {p, obs}')
        if rngseam.state() != again:
            raise Violation('stream-used', 'distances were passed back')
    want = float(np.mean(ks >= obs))
    if not abs(p - want) <= 1e-12 or not 0 <= p <= 1:
        raise Violation('p-value', f'{p} instead of {want}: {ks} {obs}')
    return 'tested'


class Lists:
    """Distances for any number of candidates."""

    def __init__(self, seed):
        self.seed = seed

    def __getitem__(self, i):
        return analyses.ks_list(self.seed + i, 20)


def test_mc(o, ctx, k):
    d, lo = o['d'], o['lo']
    if not o['k']:
        return 'empty'
    m = np.array([analyses.mag(x, d) for x in o['k']])
    n_ev = len(m)
    times = np.array([np.datetime64('2000-01-01', 'ns')
                      + np.timedelta64((i * 7919 + 13) % 100003 * n_ev + i,
                                       's') for i in range(n_ev)])
    est = analyses.B[o['method']]
    pos = o['method'] in ('positive', 'more')
    kw, b = {}, o.get('opt_b')
    if b is None:
        if pos and o['times']:
            kw['times'] = times
        if pos and o.get('opt_dmc') is not None:
            kw['dmc'] = o['opt_dmc'] * d
        if o['weights'] is not None:
            w = np.array(o['weights'], float)[:n_ev]
            if len(w) == n_ev:
                kw['weights'] = w
    mcs = None
    if o.get('mcs'):
        mcs = [analyses.mag(x, d) for x in o['mcs']]
    cand = sorted(set(mcs)) if mcs else None
    if cand is None:
        kmin, kmax = min(o['k']), max(o['k'])
        cand = [analyses.mag(x, d) for x in range(kmin, kmax + 1)]
        if kmin == kmax:
            cand = []
    if not cand:
        return 'no candidates'
    lists = Lists(o['ks']) if o.get('ks') is not None else None
    # the reference: candidates one by one on new estimators
    bs = []
    for mc in cand:
        sel = m >= mc - d / 2
        if b is not None:
            bs.append((b, sel))
            continue
        sub = {x: (y[sel] if x in ('times', 'weights') else y)
               for x, y in kw.items()}
        e = est()
        try:
            with np.errstate(all='ignore'):
                e.calculate(m[sel], mc=mc, delta_m=d, **sub)
            v = e.b_value
        except Exception as x:
            v = x
        bs.append((v, sel))
    call = dict(mcs_test=mcs and np.array(mcs), p_value_pass=o['p'],
                stop_when_passed=o['stop'], b_value=b, b_method=est,
                n=o['n'], ks_ds_list=lists, **kw)
    if o['op'] == 'cat':
        cols = dict(magnitude=m, time=times)
        c = Catalog(cols, delta_m=d)
    ctx.fault('forced draw', rngseam.load(o['stream']))
    st = np.random.get_state()
    m0 = m.copy()
    try:
        with np.errstate(all='ignore'), analyses.quiet(analyses.sink()):
            if o['op'] == 'cat':
                best, info = c.estimate_mc_ks(**call)
            else:
                best, info = estimate_mc_ks(m, d, **call)
        raised = None
    except Violation:
        raise
    except Exception as e:
        raised = e
    if not np.array_equal(m, m0):
        raise Violation('input-changed', f'{m0} became {m}')
    np.random.set_state(st)
    n_tested, want, exact = 0, None, True
    for i, (mc, (v, sel)) in enumerate(zip(cand, bs)):
        s = m[sel]
        one = len(np.unique(s)) < 2
        bad = isinstance(v, Exception) or (
            not one and not (np.isfinite(v) and v > 0))
        if bad:
            if raised is not None or isinstance(v, Exception):
                if raised is None:
                    raise Violation('no-error', f'mc {mc}: {v}')
                ctx.log(k, 'raised', type(raised).__name__)
                return 'no b-value'
            return 'no b-value'
        if raised is not None:
            # a later candidate may have no b-value
            continue
        if i >= len(info['mcs_tested']):
            if not mcs and i and i == len(cand) - 1:
                break       # whether the largest one is a candidate is open
            raise Violation('stopped-early', f'{info} candidates {cand} '
                            f'p {o["p"]}')
        if abs(info['mcs_tested'][i] - mc) > EPS:
            raise Violation('candidates', f'{info["mcs_tested"]} of {cand}')
        got_b = info['b_values_tested'][i]
        if not (got_b == v or abs(got_b - v) < EPS * max(1, abs(v))
                or (got_b != got_b and v != v)):
            raise Violation('b-value', f'mc {mc}: {got_b} instead of {v}')
        p, obs = info['p_values'][i], info['ks_ds'][i]
        if one:
            lo_p = hi_p = 0.
            want_d = 1
            tol = 0
        else:
            want_d = distance(to_bins(s, mc, d), None, v, d)
            tol = EPS
            if lists is not None:
                ks = np.asarray(lists[i])
                lo_p = float(np.mean(ks > want_d + EPS))
                hi_p = float(np.mean(ks >= want_d - EPS))
            else:
                with np.errstate(all='ignore'):
                    owns, tols = synthetic(len(s), v, mc, d, o['n'], None,
                                           max(s))
                lo_p = float(np.mean([
                    min([a] + (q or [])) > want_d + t + EPS
                    for (a, q), t in zip(owns, tols)]))
                hi_p = float(np.mean([
                    max([a] + (q or [])) >= want_d - t - EPS
                    for (a, q), t in zip(owns, tols)]))
        if not abs(obs - want_d) <= tol:
            raise Violation('observed-distance', f'mc {mc}: {obs} instead '
                            f'of {want_d}, b {v}')
        if not lo_p - 1e-12 <= p <= hi_p + 1e-12:
            raise Violation('p-value', f'mc {mc}: {p} not in '
                            f'[{lo_p}, {hi_p}]')
        n_tested += 1
        if p >= o['p'] and want is None:
            want = (mc, got_b)
            if o['stop']:
                break
    if raised is not None:
        raise raised
    if len(info['mcs_tested']) != n_tested:
        raise Violation('not-stopped', f'{info["mcs_tested"]} tested, '
                        f'{n_tested} expected')
    if {len(info[x]) for x in ('b_values_tested', 'ks_ds', 'p_values')} != {
            n_tested}:
        raise Violation('report-lengths', f'{info}')
    ctx.log(k, repr(best), repr(info))
    if want is None:
        if best is not None or info['best_b_value'] is not None:
            raise Violation('none-passed', f'{best} {info}')
        out = 'none'
    else:
        if best is None or abs(best - want[0]) > EPS \
                or repr(info['best_b_value']) != repr(want[1]):
            raise Violation('choice', f'{best} instead of {want}: {info}')
        out = 'found'
    if o['op'] == 'cat' and not (
            c.mc == best or (best is None and c.mc is None)):
        raise Violation('catalog-mc', f'{c.mc} instead of {best}')
    return out


def run(scn, ctx):
    kinds = []
    for k, o in enumerate(scn['ops']):
        out = (test_gr if o['op'] == 'gr' else test_mc)(o, ctx, k)
        ctx.state(o['op'], len(o['k']) // 5, o['stream'].get('kind'), out)
        ctx.probe(out)
        ctx.steps += o['n']
        kinds.append(out)
    if set(kinds) & {'tested', 'found', 'none'}:
        ctx.nontrivial = repr(scn)
