"""C09 simulated and dithered magnitudes stay within their limits."""
import numpy as np

from dst import rngseam
from dst.core import Violation
from seismostats.analysis import (BMorePositiveBValueEstimator,
                                  BPositiveBValueEstimator,
                                  ClassicBValueEstimator,
                                  UtsuBValueEstimator)
from seismostats.utils.simulate_distributions import (
    dither_magnitudes, simulate_magnitudes, simulate_magnitudes_binned)

PROP = 'C09'
LEVEL = 'exploration'
RULE = ('A run is a sequence of simulations, ditherings and goodness of fit '
        'tests, each on a random stream whose single draws the simulator '
        'chooses (0, 2^-53, 1 - 2^-53, long runs of one value, values near '
        'the ends) or leaves ordinary; non-trivial if a forced draw was '
        'injected or a distribution tested; distinct by the whole scenario.')
STATE = '(operation, bin size, has mag_max, its sign, kind of stream)'
COMPONENTS = {
    'real': ['simulate_magnitudes, simulate_magnitudes_binned, '
             'dither_magnitudes, p_lilliefors', 'NumPy MT19937 and its '
             'transformations', 'statsmodels'],
    'stub': ['state of the random number generator (chosen by the '
             'simulator)']}
ASSUMPTIONS = [
    'Limits are compared with a tolerance of 1e-9 (rounding of the bin '
    'edges, which are not floating point numbers).',
    'Magnitudes to dither lie on a grid of the bin size and on no coarser '
    'one of a power of ten (others are refused), within +-8 (the absolute '
    'tolerance of the binning test, 1e-15, refuses some larger ones), and '
    'samples tested for goodness of fit have at least three events.',
    'A limit of binned magnitudes is the upper edge of the bin of mag_max.',
    'The distribution is tested at a significance of about 1e-13.']
BUDGET = {'quick': dict(runs=40000, wall=45, recheck=25, shrink=60),
          'thorough': dict(runs=2000000, wall=900, recheck=500, shrink=120)}
TOL = 1e-9
DELTAS = [0.1, 0.1, 0.01, 0.2, 0.05, 0.5, 1.0, 0.3]
EST = {'classic': ClassicBValueEstimator, 'utsu': UtsuBValueEstimator,
       'positive': BPositiveBValueEstimator,
       'more': BMorePositiveBValueEstimator}


def grid(k, d):
    return float(np.round(k * d, 6))


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(['exp', 'trunc', 'trunc', 'trunc', 'binned',
                         'binned', 'btrunc', 'btrunc', 'barray', 'dither',
                         'dither', 'dither', 'fit', 'fit', 'dist'])
        d = rng.choice(DELTAS)
        s = dict(op=op, n=rng.choice([0, 1, 2, 5, 20, 100]), d=d,
                 b=rng.choice([1.0, 0.7, 1.3, 0.05, 3.0, 20.0,
                               round(rng.uniform(.3, 2), 3)]),
                 k=rng.choice([0, 1, -10, 30, rng.randint(-50, 80)]),
                 over=rng.choice([0.0, d, 1e-6, 0.05, 1.0, 3.0, 10.0,
                                  rng.uniform(0, 8)]),
                 max0=rng.random() < .25,
                 stream=rngseam.gen_stream(rng))
        if op in ('dither', 'fit'):
            n = rng.choice([1, 3, 10, 40])
            w = rng.choice([1, 3, 12])
            s['off'] = [min(60, int(rng.expovariate(1 / w)))
                        for _ in range(n)]
            s['order'] = rng.choice(['as is', 'sorted', 'reversed'])
            s['container'] = rng.choice(['array', 'array', 'list',
                                         'readonly'])
            s['est'] = rng.choice(list(EST))
            if op == 'dither' and rng.random() < .3:
                # the bins may start anywhere
                s['shift'] = rng.choice([.5, .5, .3, .02, .25])
            s['b'] = rng.choice([1.0, 0.5, 2.0, 20.0,
                                 round(rng.uniform(.3, 2), 3)])
        if op == 'dist':
            s['b'] = round(rng.uniform(.4, 2.5), 3)
            s['what'] = rng.choice(['exp', 'trunc', 'binned', 'dither',
                                    'btrunc', 'barray', 'beta'])
            # enough draws to see an error of one percent of b
            s['n'] = rng.choice([3000] * 9 + [400000])
            s['stream'] = dict(seed=rng.randrange(1 << 32), kind='seed')
        ops.append(s)
    return dict(ops=ops)


def finite(x, k, op, n):
    if not isinstance(x, np.ndarray) or x.shape != (n,):
        raise Violation('wrong-number', f'op {k} {op}: '
                        f'{getattr(x, "shape", type(x))} instead of ({n},)')
    if not np.all(np.isfinite(x)):
        raise Violation('not-finite', f'op {k} {op}: {x}')


def limits(x, lo, hi, k, op):
    if len(x) and x.min() < lo - TOL:
        raise Violation('below-limit', f'op {k} {op}: {x.min()!r} < {lo!r}')
    if hi is not None and len(x) and x.max() > hi + TOL:
        raise Violation('above-limit', f'op {k} {op}: {x.max()!r} > {hi!r}')


def base(s):
    """Lowest bin of a sample (within +-8, see ASSUMPTIONS)."""
    top = int(7.9 / s['d']) - 1
    return max(-top, min(top, s['k']))


def sample(s):
    """Magnitudes on the grid, on no coarser one."""
    d, k = s['d'], base(s)
    off = list(s['off']) + [0, 1]
    m = [grid(min(k + j, max(int(7.9 / d), k + 1)) + s.get('shift', 0), d)
         for j in off]
    if s['order'] == 'sorted':
        m.sort()
    elif s['order'] == 'reversed':
        m.sort(reverse=True)
    return m


def dithered(out, m, d, k, op):
    """Exactly the events of each bin, inside their bin."""
    bins, counts = np.unique(m, return_counts=True)
    x = np.sort(out)
    a = 0
    for b, c in zip(bins, counts):
        part = x[a:a + c]
        a += c
        limits(part, b - d / 2, b + d / 2, k, op)


def no_more(u):
    """Kolmogorov distance of values that should be uniform on [0, 1]."""
    x = np.sort(np.clip(u, 0, 1))
    n = len(x)
    i = np.arange(n)
    return max(np.max((i + 1) / n - x), np.max(x - i / n)) * np.sqrt(n)


def frequencies(x, mc, d, beta, top, k, what):
    """Relative frequency of each bin, cut off at top."""
    n = len(x)
    j = np.round((x - mc) / d).astype(int)
    freq = np.bincount(j, minlength=1)
    lo = np.arange(len(freq)) * d
    hi = lo + d
    full = 1.
    if top is not None:
        w = top - mc + d / 2
        lo, hi = np.minimum(lo, w), np.minimum(hi, w)
        full = -np.expm1(-beta * w)
    p = (np.exp(-beta * lo) - np.exp(-beta * hi)) / full
    z = (freq - n * p) / np.sqrt(n * p * (1 - p) + 1e-9)
    big = (n * p > 20) & (n * (1 - p) > 20)
    if np.any(np.abs(z[big]) > 8):
        raise Violation('wrong-distribution', f'op {k} {what}: {z[big]}')


def distribution(s, k):
    n = s.get('n') if s.get('n') in (3000, 400000) else 3000
    d, b = s['d'], s['b']
    beta = b * np.log(10)
    k0 = base(s)
    mc = grid(k0, d)
    what = s['what']
    w = max(s['over'], .1)
    if what == 'exp':
        x = simulate_magnitudes(n, beta, mc)
        u = -np.expm1(-beta * (x - mc))
    elif what == 'trunc':
        x = simulate_magnitudes(n, beta, mc, mc + w)
        u = np.expm1(-beta * (x - mc)) / np.expm1(-beta * w)
    elif what == 'dither':
        m = np.repeat([mc, grid(k0 + 1, d)], n // 2)
        x = dither_magnitudes(m, d, b)
        r = x - np.repeat([mc, grid(k0 + 1, d)], n // 2) + d / 2
        u = np.expm1(-beta * r) / np.expm1(-beta * d)
    elif what == 'barray':
        # every second one twice as steep
        x = simulate_magnitudes_binned(n, np.tile([b, 2 * b], n // 2), mc, d)
        frequencies(x[::2], mc, d, beta, None, k, what)
        return frequencies(x[1::2], mc, d, 2 * beta, None, k, what)
    else:
        top = mc + w if what == 'btrunc' else None
        x = simulate_magnitudes_binned(n, beta if what == 'beta' else b, mc,
                                       d, top, 'beta' if what == 'beta'
                                       else 'b_value')
        return frequencies(x, mc, d, beta, top, k, what)
    t = no_more(u)
    if t > 4:
        raise Violation('wrong-distribution', f'op {k} {what}: sqrt(n) D = '
                        f'{t:.2f}')
    # one after the other, independently
    c = (12 * (u[1:] - .5) * (u[:-1] - .5)).sum() / np.sqrt(n - 1)
    if abs(c) > 8:
        raise Violation('not-independent', f'op {k} {what}: {c:.2f}')


def run(scn, ctx):
    nontriv = False
    for k, s in enumerate(scn['ops']):
        op, d, n, b = s['op'], s['d'] or 0.1, s['n'], s['b'] or 1.0
        s = dict(s, d=d, b=b)
        beta = b * np.log(10)
        mc = grid(s['k'], d)
        forced = rngseam.load(s['stream'])
        ctx.fault('forced draw', forced)
        mmax = mc + s['over']
        if s['max0'] and mc <= 0:
            mmax = 0.0
        out = None
        if op == 'exp':
            out = simulate_magnitudes(n, beta, mc)
            finite(out, k, op, n)
            limits(out, mc, None, k, op)
        elif op == 'trunc':
            out = simulate_magnitudes(n, beta, mc, mmax)
            finite(out, k, op, n)
            limits(out, mc, mmax, k, op)
        elif op in ('binned', 'btrunc', 'barray'):
            hi = None
            bb = b
            if op == 'btrunc':
                hi = mmax
            if op == 'barray':
                bb = np.linspace(b, 2 * b, n) if n else np.array([])
                bb0 = bb.copy()
            par = 'beta' if s['max0'] else 'b_value'
            out = simulate_magnitudes_binned(n, bb, mc, d, hi, par)
            if op == 'barray' and not np.array_equal(bb, bb0):
                raise Violation('input-changed', f'op {k}')
            finite(out, k, op, n)
            top = None if hi is None else (np.floor(
                hi / d + .5 + 1e-9) + .5) * d
            limits(out, mc, None if top is None else max(top, mc + d / 2),
                   k, op)
            r = out / d
            if len(r) and np.max(np.abs(r - np.round(r))) * d > TOL:
                raise Violation('off-grid', f'op {k} {op}: {out}')
        elif op == 'dither':
            m = sample(s)
            a = np.array(m)
            if s['container'] == 'readonly':
                a.flags.writeable = False
            elif s['container'] == 'list':
                a = list(m)
            out = dither_magnitudes(a, d, b)
            if list(a) != m:
                raise Violation('input-changed', f'op {k}: {a}')
            finite(out, k, op, len(m))
            dithered(out, m, d, k, op)
        elif op == 'fit':
            m = sample(s)
            a = np.array(m)
            e = EST[s['est']]()
            e.calculate(a, mc=grid(base(s), d), delta_m=d)
            x = np.unique(e.magnitudes)
            steps = np.round(np.diff(x) / d).astype(int)
            if not (np.isfinite(e.value) and e.value > 0 and e.n >= 3
                    and 1 in steps):
                ctx.probe('fit not possible')
                continue
            p = e.p_lilliefors(n=3)
            if not 0 <= p <= 1:
                raise Violation('no-p-value', f'op {k} {s["est"]}: {p!r}')
            if list(a) != m:
                raise Violation('input-changed', f'op {k}: {a}')
            out = np.array([p])
        elif op == 'dist':
            distribution(s, k)
            ctx.probe('dist ' + s['what'])
            nontriv = True
        ctx.probe(op)
        ctx.state(op, d, op in ('trunc', 'btrunc') and (
            mmax > 0) - (mmax < 0), s['stream']['kind'])
        ctx.log(k, op, None if out is None else out.tobytes().hex(),
                rngseam.state())
        ctx.steps += 1
        nontriv |= forced > 0
    if nontriv:
        ctx.nontrivial = repr(scn)
