"""Building blocks shared by the simulated workloads: random but explicit
(JSON) descriptions of boreholes, pipes and networks, and the functions that
turn them into objects of a given world."""
import math

import numpy as np

# ---------------------------------------------------------------------------
# random values


def uni(rng, a, b, digits=4):
    return round(rng.uniform(a, b), digits)


def logu(rng, a, b, digits=6):
    return round(math.exp(rng.uniform(math.log(a), math.log(b))), digits)


def ratios(rng, n):
    """Unequal segment ratios, summing to one."""
    w = [rng.uniform(0.4, 2.5) for _ in range(n)]
    s = sum(w)
    w = [x / s for x in w]
    w[-1] = 1. - sum(w[:-1])
    return w


def arrays(x):
    """A vector, or a list of vectors."""
    if x and isinstance(x[0], list):
        return [np.array(v) for v in x]
    return np.array(x)


# ---------------------------------------------------------------------------
# boreholes and pipes

def gen_borehole(rng, x=0., y=0., inclined=False):
    b = {'H': uni(rng, 30., 220., 1), 'D': uni(rng, 0.5, 6., 2),
         'r_b': uni(rng, 0.065, 0.085, 4), 'x': x, 'y': y}
    if inclined and rng.random() < 0.5:
        b['tilt'] = uni(rng, 0.02, 0.5, 3)
        b['orientation'] = uni(rng, 0., 6.28, 3)
    return b


def make_borehole(world, b):
    return world.boreholes.Borehole(
        b['H'], b['D'], b['r_b'], b['x'], b['y'],
        tilt=b.get('tilt', 0.), orientation=b.get('orientation', 0.))


PIPE_KINDS = ('single', 'multi', 'coax', 'indep')


def gen_pipe(rng, kind=None, borehole=None, network=False):
    """A pipe of any class.  Thermal resistances are moderate so that NTU
    stays within the range met in practice."""
    kind = kind or rng.choice(PIPE_KINDS)
    if network and kind == 'indep':
        kind = 'single'
    p = {'kind': kind, 'b': borehole or gen_borehole(rng),
         'k_s': uni(rng, 1.0, 3.5, 2), 'k_g': uni(rng, 0.6, 2.2, 2),
         'R_fp': uni(rng, 0.02, 0.15, 4), 'J': rng.choice([0, 1, 2, 2, 3]),
         'reversible': rng.random() < 0.85}
    r_b = p['b']['r_b']
    if kind == 'coax':
        p['annular_in'] = rng.random() < 0.5
        p['R_ff'] = uni(rng, 0.05, 0.5, 4)
        p['off'] = rng.choice([0., 0., uni(rng, 0., 0.004, 4)])
        p['J'] = rng.choice([0, 2])
        if rng.random() < 0.5:
            p['size'] = uni(rng, 0.8, 1.04, 3)
    else:
        n = 1 if kind == 'single' else rng.choice([2, 2, 3])
        p['n'] = n
        p['r_out'] = uni(rng, 0.010, 0.016 if n < 3 else 0.0125, 4)
        p['r_in'] = round(p['r_out'] * rng.uniform(0.75, 0.9), 5)
        m = 2 * n
        # positions on a circle, each pipe inside the borehole, no overlap
        rmin = p['r_out'] / math.sin(math.pi / m) * 1.02
        rmax = (r_b - p['r_out']) * 0.98
        rad = rng.uniform(rmin, max(rmin, rmax))
        rot = rng.uniform(0., 6.28)
        order = list(range(m))
        if rng.random() < 0.5:
            rng.shuffle(order)
        pos = [[round(rad * math.cos(rot + 2 * math.pi * i / m), 6),
                round(rad * math.sin(rot + 2 * math.pi * i / m), 6)]
               for i in order]
        if kind == 'single' and rng.random() < 0.6:
            # unsymmetrical: legs at different radii
            f = rng.uniform(0.0, 1.0)
            rr = rmin + f * max(0., rmax - rmin)
            ang = rot + 2 * math.pi * order[1] / m
            pos[1] = [round(rr * math.cos(ang), 6),
                      round(rr * math.sin(ang), 6)]
        p['pos'] = pos
        if kind == 'multi':
            p['config'] = rng.choice(['parallel', 'series'])
    return p


def make_pipe(world, p, borehole=None, lst=list):
    b = borehole if borehole is not None else make_borehole(world, p['b'])
    k = p['kind']
    P = world.pipes
    if k == 'coax':
        f = p.get('size', 1.)
        r_in = np.array([0.0221, 0.0487]) * f
        r_out = np.array([0.025, 0.055]) * f
        if p['annular_in']:
            r_in, r_out = r_in[::-1].copy(), r_out[::-1].copy()
        return P.Coaxial((p['off'], 0.), r_in, r_out, b, p['k_s'], p['k_g'],
                         p['R_ff'], p['R_fp'], J=p['J'],
                         reversible_flow=p['reversible'])
    pos = lst(tuple(xy) for xy in p['pos'])
    if k == 'single':
        return P.SingleUTube(pos, p['r_in'], p['r_out'], b, p['k_s'],
                             p['k_g'], p['R_fp'], J=p['J'],
                             reversible_flow=p['reversible'])
    if k == 'multi':
        return P.MultipleUTube(pos, p['r_in'], p['r_out'], b, p['k_s'],
                               p['k_g'], p['R_fp'], p['n'],
                               config=p['config'], J=p['J'],
                               reversible_flow=p['reversible'])
    return P.IndependentMultipleUTube(
        pos, p['r_in'], p['r_out'], b, p['k_s'], p['k_g'], p['R_fp'], p['n'],
        J=p['J'], reversible_flow=p['reversible'])


def with_resistances(p, upd):
    """Description of the same pipe after update_thermal_resistances."""
    q = dict(p)
    q['R_fp'] = upd['R_fp']
    if p['kind'] == 'coax':
        q['R_ff'] = upd['R_ff']
    return q


def gen_update(rng, p):
    f = rng.choice([1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.4])
    u = {'R_fp': round(p['R_fp'] * (1. + rng.choice([-1, 1]) * f), 8)}
    if p['kind'] == 'coax':
        u['R_ff'] = p['R_ff']
        r = rng.random()
        if r < 0.7:
            u['R_ff'] = round(p['R_ff'] * (1. + rng.choice([-1, 1]) * f), 8)
        if r < 0.4:
            u['R_fp'] = p['R_fp']
    return u


def apply_update(pipe, p, upd):
    if p['kind'] == 'coax':
        pipe.update_thermal_resistances(upd['R_ff'], upd['R_fp'])
    else:
        pipe.update_thermal_resistances(upd['R_fp'])


def n_inlets(p):
    return p['n'] if p['kind'] == 'indep' else 1


def flow_scale(p):
    """Typical mass flow rate [kg/s] of one inlet such that NTU is moderate:
    NTU ~ H / (R m cp)."""
    H = p['b']['H']
    R = max(0.06, p['R_fp'])
    m = H / (R * 4000. * 1.2)
    if p['kind'] == 'coax':
        m = max(m, H / (p['R_ff'] * 4000. * 1.2))
    return m


FLOW_EPS = (3e-7, 2e-6, 3e-5, 1e-4, 1e-3, 1e-2)


# ---------------------------------------------------------------------------
# comparing answers

def shape_of(x):
    if isinstance(x, tuple):
        return tuple(shape_of(i) for i in x)
    return np.shape(x)


def differs(a, b, rtol=2e-5, atol=0.):
    """None if the two answers agree, else a short description.  Agreement is
    norm-wise: max|a-b| <= rtol * max|b| + atol, same shapes, same type of
    answer (tuple, array, number)."""
    if isinstance(b, (tuple, list)) and not isinstance(b, np.ndarray):
        if not isinstance(a, (tuple, list)) or len(a) != len(b):
            return f'{len(b)} values expected, got {type(a).__name__}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, rtol, atol)
            if d:
                return f'[{i}] {d}'
        return None
    if isinstance(b, (str, bytes, bool, type(None))):
        return None if a == b else f'{a!r} instead of {b!r}'
    try:
        x = np.asarray(a, dtype=float)
        y = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return f'{a!r} instead of {b!r}'
    if x.shape != y.shape:
        return f'shape {x.shape} instead of {y.shape}'
    if x.size == 0:
        return None
    if not np.array_equal(np.isnan(x), np.isnan(y)):
        return 'NaN pattern differs'
    m = ~np.isnan(y)
    inf = np.isinf(y) | np.isinf(x)
    if np.any(inf) and not np.array_equal(x[inf], y[inf]):
        return 'infinities differ'
    m &= ~inf
    if not np.any(m):
        return None
    scale = np.max(np.abs(y[m]))
    err = np.max(np.abs(x[m] - y[m]))
    if err > rtol * scale + atol:
        return (f'differs by {err:.3e} (relative {err / max(scale, 1e-300):.3e})')
    return None


class Raised:
    """Outcome of a call that raised."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f'raised {type(self.exc).__name__}'


def call(f, *args, **kwargs):
    """Outcome of a call: its value, or Raised.  Exceptions the simulator
    injects are BaseException subclasses listed in faults.INJECTED and are
    returned the same way."""
    try:
        return f(*args, **kwargs)
    except KeyboardInterrupt as e:
        return Raised(e)
    except Exception as e:
        return Raised(e)


def frozen(x):
    """Private deep copy of an answer."""
    if isinstance(x, (tuple, list)):
        return tuple(frozen(i) for i in x)
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def tolist(x):
    if isinstance(x, (tuple, list)):
        return [tolist(i) for i in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


def process_settings():
    """Settings of the whole process that calculations depend on."""
    import os
    import random
    import sys
    import warnings
    return (os.getcwd(), sys.getrecursionlimit(), dict(os.environ),
            sorted(np.geterr().items()), np.geterrcall(),
            hash(np.random.get_state()[1].tobytes()),
            random.getstate()[1][-1], tuple(map(repr, warnings.filters)),
            sorted(np.get_printoptions().items(), key=repr).__repr__())


def changed_settings(before, after):
    return repr([(a, b) for a, b in zip(before, after) if a != b])[:300]


class Buffers:
    """A caller that keeps one array per argument and shape, and fills it
    again for every call."""

    def __init__(self, on=True):
        self.on = on
        self.kept = {}
        self.refilled = 0

    def __call__(self, x, role=''):
        if not self.on:
            return x
        if isinstance(x, np.ndarray) and x.dtype != object and x.size:
            key = (role, x.shape, x.dtype.str)
            if key not in self.kept:
                self.kept[key] = x.copy()
            else:
                self.kept[key][...] = x
                self.refilled += 1
            return self.kept[key]
        if isinstance(x, list) and x and all(
                isinstance(i, (int, float)) for i in x):
            key = (role, len(x), 'list')
            if key not in self.kept:
                self.kept[key] = list(x)
            else:
                self.kept[key][:] = x
                self.refilled += 1
            return self.kept[key]
        if isinstance(x, list) and x and isinstance(x[0], np.ndarray):
            return [self(v, (role, i)) for i, v in enumerate(x)]
        return x

    def call(self, args, kwargs):
        return (tuple(self(a, i) for i, a in enumerate(args)),
                {k: self(v, k) for k, v in kwargs.items()})
