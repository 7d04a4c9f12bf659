"""Queries on pipes: generation (as mutations of earlier queries, so that
consecutive queries are near misses of each other) and execution."""
import numpy as np

from . import kit, plots

METHODS = ('coefficients_inlet_temperature',
           'coefficients_outlet_temperature',
           'coefficients_temperature',
           'coefficients_borehole_heat_extraction_rate',
           'coefficients_fluid_heat_extraction_rate',
           'get_temperature', 'get_inlet_temperature',
           'get_outlet_temperature', 'get_borehole_heat_extraction_rate',
           'get_fluid_heat_extraction_rate',
           'get_total_heat_extraction_rate',
           'effective_borehole_thermal_resistance',
           'local_borehole_thermal_resistance',
           'borehole_thermal_resistance', 'visualize_pipes')


def gen_args(rng, p):
    n_in = kit.n_inlets(p)
    m0 = kit.flow_scale(p)
    m = [round(m0 * rng.uniform(0.7, 2.5), 6) for _ in range(n_in)]
    if n_in > 1 and rng.random() < 0.3:
        m = [m[0]] * n_in
    if rng.random() < 0.15:
        # small and large flows, very unequal circuits
        m = [round(x * rng.choice([0.25, 1., 4., 12.]), 6) for x in m]
    if rng.random() < 0.3:
        m = [-x for x in m]
    if n_in > 1 and rng.random() < 0.25:
        m[rng.randrange(n_in)] *= -1
    n = rng.choice([1, 2, 3, 4, 5, 8])
    a = {'m': m, 'cp': kit.uni(rng, 3500., 4250., 1), 'n': n,
         'ratios': kit.ratios(rng, n) if rng.random() < 0.6 else None}
    if n_in > 1 and rng.random() < 0.5:
        # another fluid in every circuit
        a['cp'] = [kit.uni(rng, 3500., 4250., 1) for _ in range(n_in)]
    return a


def scale(x, f):
    return [v * f for v in x] if isinstance(x, list) else x * f


def near(rng, p, a):
    """A near miss of arguments `a`; returns (args, relation)."""
    a = dict(a, m=list(a['m']),
             ratios=None if a['ratios'] is None else list(a['ratios']))
    r = rng.choice(['same', 'same', 'eps', 'eps', 'reverse', 'reverse',
                    'swap_m_cp', 'cp_eps', 'ratio_eps', 'ratio_perm',
                    'ratio_toggle', 'n', 'one_inlet', 'same_total', 'new'])
    e = rng.choice(kit.FLOW_EPS) * rng.choice([-1, 1])
    if r == 'eps':
        a['m'] = [x * (1. + e) for x in a['m']]
    elif r == 'reverse':
        a['m'] = [-x for x in a['m']]
    elif r == 'swap_m_cp':
        a['m'] = [x * 1.25 for x in a['m']]
        a['cp'] = scale(a['cp'], 1. / 1.25)
    elif r == 'cp_eps':
        if isinstance(a['cp'], list) and rng.random() < 0.5:
            a['cp'] = a['cp'][1:] + a['cp'][:1]
        else:
            a['cp'] = scale(a['cp'], 1. + e)
    elif r == 'ratio_eps' and a['ratios'] and a['n'] > 1:
        i, j = rng.sample(range(a['n']), 2)
        d = a['ratios'][i] * rng.choice([1e-4, 1e-3, 1e-2, 0.1])
        a['ratios'][i] += d
        a['ratios'][j] -= d
    elif r == 'ratio_perm' and a['ratios'] and a['n'] > 1:
        rng.shuffle(a['ratios'])
    elif r == 'ratio_toggle':
        a['ratios'] = kit.ratios(rng, a['n']) if a['ratios'] is None \
            else None
    elif r == 'n':
        a['n'] = rng.choice([1, 2, 3, 4, 5, 8])
        if a['ratios'] is not None:
            a['ratios'] = kit.ratios(rng, a['n'])
    elif r == 'one_inlet' and len(a['m']) > 1:
        i = rng.randrange(len(a['m']))
        a['m'][i] *= rng.choice([1. + e, -1., 1.3])
    elif r == 'same_total' and len(a['m']) > 1:
        # the same total flow, shared differently
        k = rng.random()
        if k < 0.5:
            a['m'] = a['m'][1:] + a['m'][:1]
        else:
            i, j = rng.sample(range(len(a['m'])), 2)
            d = a['m'][i] * rng.choice([1e-4, 0.01, 0.2])
            a['m'][i] -= d
            a['m'][j] += d
            if abs(a['m'][j]) < 0.1 * abs(a['m'][i]):
                a['m'][j] = a['m'][i]
    elif r == 'new':
        a = gen_args(rng, p)
    else:
        r = 'same'
    return a, r


def gen_query(rng, p, a, methods=METHODS):
    q = dict(a)
    q['f'] = rng.choice(methods)
    f = q['f']
    if 'thermal_resistance' in f:
        if kit.n_inlets(p) > 1 and f != 'local_borehole_thermal_resistance':
            q['f'] = f = 'coefficients_outlet_temperature'
    n_in = kit.n_inlets(p)
    if f in ('coefficients_temperature', 'get_temperature'):
        H = p['b']['H']
        k = rng.choice([1, 2, 4])
        q['z'] = [0., H][:k] if rng.random() < 0.2 else \
            [kit.uni(rng, 0., H, 2) for _ in range(k)]
        if len(q['z']) == 4:
            # a depth asked for twice
            q['z'][rng.randrange(4)] = q['z'][rng.randrange(4)]
        if f == 'get_temperature' and rng.random() < 0.2:
            q['z'] = q['z'][0]
    if f.startswith('get_'):
        q['T_b'] = [kit.uni(rng, 2., 14., 2) for _ in range(a['n'])]
        if a['n'] == 1 and rng.random() < 0.3:
            q['T_b'] = q['T_b'][0]
        if f == 'get_inlet_temperature':
            q['T'] = [kit.uni(rng, 500., 6000., 1) for _ in range(n_in)]
        else:
            q['T'] = [kit.uni(rng, 20., 40., 2) for _ in range(n_in)]
        if rng.random() < 0.35:
            q['T_b'] = walls(rng, a['n'])
            q['T'] = [1500. if f == 'get_inlet_temperature' else 30.] * n_in
            if n_in > 1:
                q['T'] = [x * (1. + 0.1 * i) for i, x in enumerate(q['T'])]
                rng.shuffle(q['T'])
        if n_in == 1 and rng.random() < 0.6:
            q['T'] = q['T'][0]
    return q


def sibling(rng, q):
    """The same question with other contents of one of its arrays."""
    names = [k for k in ('T_b', 'T_b', 'z', 'T', 'm', 'ratios')
             if isinstance(q.get(k), list) and len(q[k]) > 0]
    if not names:
        return dict(q)
    k = rng.choice(names)
    v = list(q[k])
    nested = isinstance(v[0], list)
    if k in ('T_b', 'T'):
        v = [round(x + rng.choice([-2., 0.5, 3.]), 4) for x in v]
    elif k == 'm':
        f = rng.choice([1.01, 1.3, 0.8])
        v = [x * f for x in v]
    elif k == 'z':
        v = [round(0.9 * x, 3) for x in v]
    elif nested:
        j = rng.randrange(len(v))
        v[j] = v[j][1:] + v[j][:1]
    else:
        v = v[1:] + v[:1]
    return dict(q, **{k: v})


def walls(rng, n):
    """The same wall temperatures in any order."""
    T = [5. + 0.5 * i for i in range(n)]
    if rng.random() < 0.6:
        rng.shuffle(T)
    return T


def arrays(q):
    """The arguments of a query, in the form the interface documents."""
    m = np.array(q['m'], dtype=float)
    m = float(m[0]) if len(m) == 1 else m
    r = None if q['ratios'] is None else np.array(q['ratios'])
    cp = np.array(q['cp']) if isinstance(q['cp'], list) else q['cp']
    return m, cp, q['n'], r


def build(q):
    """(positional arguments, keyword arguments)."""
    m, cp, n, r = arrays(q)
    f = q['f']
    if f in ('local_borehole_thermal_resistance', 'visualize_pipes'):
        return (), {}
    if f in ('effective_borehole_thermal_resistance',
             'borehole_thermal_resistance'):
        return (m, cp), {}
    if f == 'coefficients_temperature':
        return (np.array(q['z'], dtype=float), m, cp, n), \
            {'segment_ratios': r}
    if f.startswith('coefficients'):
        return (m, cp, n), {'segment_ratios': r}
    T = q['T'] if np.isscalar(q['T']) else np.array(q['T'])
    T_b = q['T_b'] if np.isscalar(q['T_b']) else np.array(q['T_b'])
    if f == 'get_temperature':
        z = q['z'] if np.isscalar(q['z']) else np.array(q['z'], dtype=float)
        return (z, T, T_b, m, cp), {'segment_ratios': r}
    return (T, T_b, m, cp), {'segment_ratios': r}


def invoke(world, pipe, q, args=None, kwargs=None):
    if args is None:
        args, kwargs = build(q)
    if q['f'] == 'visualize_pipes':
        return plots.section(world, pipe)
    if q['f'] == 'borehole_thermal_resistance':
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return world.pipes.borehole_thermal_resistance(
                pipe, *args, **kwargs)
    return getattr(pipe, q['f'])(*args, **kwargs)


def run(world, pipe, q, buffers=None):
    if buffers is not None and buffers.on:
        return kit.call(invoke, world, pipe, q, *buffers.call(*build(q)))
    return kit.call(invoke, world, pipe, q)


def fresh_answer(worldcls, p, q):
    """The answer of a newly started process to the same question."""
    w = worldcls()
    try:
        return kit.frozen(run(w, kit.make_pipe(w, p), q))
    finally:
        w.close()


def label(q):
    return q['f']


def compare(ctx, got, want, kind, what):
    r_got, r_want = isinstance(got, kit.Raised), isinstance(want, kit.Raised)
    if r_got or r_want:
        ctx.check(r_got == r_want, kind,
                  lambda: f'{what}: {got!r} but a new object: {want!r}')
        return
    d = kit.differs(got, want)
    ctx.check(d is None, kind, lambda: f'{what}: {d}')
