"""Networks: generation of descriptions and queries."""
import numpy as np

from . import kit, pipeq

METHODS = ('coefficients_inlet_temperature',
           'coefficients_outlet_temperature',
           'coefficients_network_inlet_temperature',
           'coefficients_network_outlet_temperature',
           'coefficients_borehole_heat_extraction_rate',
           'coefficients_fluid_heat_extraction_rate',
           'coefficients_network_heat_extraction_rate',
           'get_inlet_temperature', 'get_outlet_temperature',
           'get_borehole_heat_extraction_rate',
           'get_fluid_heat_extraction_rate',
           'get_network_inlet_temperature',
           'get_network_outlet_temperature',
           'get_network_heat_extraction_rate',
           'network_thermal_resistance')


def gen_connectivity(rng, n, max_chains=None):
    """A random permutation of boreholes cut into chains."""
    k = rng.randint(1, n if max_chains is None else min(n, max_chains))
    order = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(order)
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    c = [-1] * n
    for a, b in zip([0] + cuts, cuts + [n]):
        chain = order[a:b]
        for i, j in zip(chain[1:], chain[:-1]):
            c[i] = j
    return c


def gen_network(rng, nmax=5, kinds=('single', 'multi', 'coax'),
                spacing=None):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    n = min(n, nmax)
    pipes = []
    base = None
    uniform = rng.random() < 0.3
    for i in range(n):
        b = kit.gen_borehole(rng, x=round(i * (spacing or 6.), 2),
                             y=kit.uni(rng, 0., 5., 2))
        p = kit.gen_pipe(rng, kind=rng.choice(kinds), borehole=b,
                         network=True)
        if base is None:
            base = p
        elif uniform:
            p = dict(base, b=dict(base['b'], x=b['x'], y=b['y']))
        p['reversible'] = base['reversible'] if rng.random() < 0.8 \
            else p['reversible']
        pipes.append(p)
    return {'pipes': pipes, 'c': gen_connectivity(rng, n),
            'c_none': False}


def make_network(world, net, pipes=None):
    if pipes is None:
        pipes = [kit.make_pipe(world, p) for p in net['pipes']]
    return world.networks.Network(
        [p.b for p in pipes], list(pipes), bore_connectivity=list(net['c']))


def n_inlets(net):
    return net['c'].count(-1)


def gen_args(rng, net):
    n_in = n_inlets(net)
    # moderate NTU in every borehole of a circuit
    m0 = max(kit.flow_scale(p) for p in net['pipes'])
    f = rng.uniform(0.7, 2.2)
    if n_in > 1 and rng.random() < 0.6:
        m = [round(m0 * f * rng.uniform(0.6, 1.7), 6) for _ in range(n_in)]
    elif rng.random() < 0.5:
        m = [round(m0 * f, 6)] * n_in
    else:
        m = round(m0 * f * n_in, 6)
    if rng.random() < 0.12:
        m = [round(x * rng.choice([1., 3., 9.]), 6) for x in m] \
            if isinstance(m, list) else round(m * rng.choice([3., 9.]), 6)
    if rng.random() < 0.35:
        m = neg(m)
    nb = len(net['pipes'])
    n = rng.choice([1, 2, 3, 4])
    if rng.random() < 0.1:
        n = rng.choice([5, 6, 8, 12])
    if rng.random() < 0.35:
        n = [rng.choice([1, 2, 3, 4, 4, 7]) for _ in range(nb)]
    a = {'m': m, 'cp': kit.uni(rng, 3500., 4250., 1), 'n': n,
         'ratios': None}
    if rng.random() < 0.55:
        a['ratios'] = gen_ratios(rng, n, nb)
    if rng.random() < 0.15:
        a['cp_n'] = n_in                # heat capacity of every inlet
    return a


def gen_ratios(rng, n, nb):
    if isinstance(n, int) and rng.random() < 0.3:
        return kit.ratios(rng, n)                     # one array for all
    ns = n if isinstance(n, list) else [n] * nb
    return [kit.ratios(rng, k) for k in ns]


def neg(m):
    return [-x for x in m] if isinstance(m, list) else -m


def scale(m, f):
    return [x * f for x in m] if isinstance(m, list) else m * f


def near(rng, net, a):
    a = dict(a)
    r = rng.choice(['same', 'same', 'eps', 'reverse', 'reverse', 'scalar',
                    'perm', 'swap_m_cp', 'cp_eps', 'cp_form', 'ratio_eps',
                    'ratio_perm', 'ratio_toggle', 'n', 'n', 'one_inlet',
                    'new'])
    e = rng.choice(kit.FLOW_EPS) * rng.choice([-1, 1])
    nb, n_in = len(net['pipes']), n_inlets(net)
    done = True
    if r == 'eps':
        a['m'] = scale(a['m'], 1. + e)
    elif r == 'reverse':
        a['m'] = neg(a['m'])
    elif r == 'scalar':
        # total flow as a number <-> the flow of each inlet
        if isinstance(a['m'], list):
            a['m'] = sum(a['m']) if rng.random() < 0.5 else a['m'][0]
        else:
            a['m'] = [a['m']] * n_in if rng.random() < 0.5 \
                else [a['m'] / n_in] * n_in
    elif r == 'perm' and isinstance(a['m'], list) and n_in > 1:
        a['m'] = a['m'][1:] + a['m'][:1]
    elif r == 'swap_m_cp':
        a['m'] = scale(a['m'], 1.25)
        a['cp'] /= 1.25
    elif r == 'cp_eps':
        a['cp'] *= 1. + e
    elif r == 'cp_form':
        a['cp_n'] = None if a.get('cp_n') else n_in
    elif r == 'ratio_eps' and a['ratios']:
        a['ratios'], done = jitter(rng, a['ratios'])
    elif r == 'ratio_perm' and a['ratios'] and \
            isinstance(a['ratios'][0], list):
        i = rng.randrange(nb)
        x = list(a['ratios'][i])
        rng.shuffle(x)
        a['ratios'] = a['ratios'][:i] + [x] + a['ratios'][i + 1:]
    elif r == 'ratio_toggle':
        a['ratios'] = None if a['ratios'] else gen_ratios(rng, a['n'], nb)
    elif r == 'n':
        old = a['n']
        if isinstance(old, list) and nb > 1 and rng.random() < 0.75:
            a['n'] = same_total(rng, old)
        else:
            a['n'] = rng.choice([1, 2, 3, 4]) if rng.random() < 0.5 else \
                [rng.choice([1, 2, 3, 4]) for _ in range(nb)]
        if a['ratios']:
            a['ratios'] = gen_ratios(rng, a['n'], nb)
    elif r == 'one_inlet' and isinstance(a['m'], list) and n_in > 1:
        i = rng.randrange(n_in)
        m = list(a['m'])
        m[i] *= rng.choice([1. + e, 1.3])
        a['m'] = m
    elif r == 'new':
        a = gen_args(rng, net)
    else:
        done = False
    return a, (r if done else 'same')


def same_total(rng, old):
    """Other numbers of segments with the same total."""
    x = rng.random()
    if x < 0.3:
        return old[1:] + old[:1]
    n = list(old)
    if x < 0.6:
        rng.shuffle(n)
        return n
    i, j = rng.sample(range(len(n)), 2)
    if n[i] > 1:
        n[i] -= 1
        n[j] += 1
    return n


def jitter(rng, ratios):
    d = rng.choice([1e-4, 1e-3, 1e-2, 0.1])
    nested = isinstance(ratios[0], list)
    rows = [list(x) for x in ratios] if nested else [list(ratios)]
    cand = [r for r in rows if len(r) > 1]
    if not cand:
        return ratios, False
    row = rng.choice(cand)
    i, j = rng.sample(range(len(row)), 2)
    x = row[i] * d
    row[i] += x
    row[j] -= x
    return (rows if nested else rows[0]), True


def gen_query(rng, net, a, methods=METHODS):
    q = dict(a)
    q['f'] = rng.choice(methods)
    nb = len(net['pipes'])
    if q['f'].startswith('get_'):
        tot = sum(a['n']) if isinstance(a['n'], list) else a['n'] * nb
        q['T_b'] = kit.uni(rng, 2., 14., 2) if rng.random() < 0.2 else \
            [kit.uni(rng, 2., 14., 2) for _ in range(tot)]
        heat = q['f'] == 'get_network_inlet_temperature'
        q['T'] = kit.uni(rng, 500., 9000., 1) * nb if heat \
            else kit.uni(rng, 20., 40., 2)
        if rng.random() < 0.35:
            # walls in another order, the same plant otherwise
            q['T'] = 2000. * nb if heat else 30.
            q['T_b'] = pipeq.walls(rng, tot)
    return q


def build(q):
    m = np.array(q['m'], dtype=float) if isinstance(q['m'], list) else q['m']
    n = list(q['n']) if isinstance(q['n'], list) else q['n']
    cp = np.full(q['cp_n'], q['cp']) if q.get('cp_n') else q['cp']
    r = q['ratios']
    if r is not None:
        r = [np.array(x) for x in r] if isinstance(r[0], list) \
            else np.array(r)
    if q['f'] == 'network_thermal_resistance':
        return (m, cp), {}
    if q['f'].startswith('coef'):
        return (m, cp, n), {'segment_ratios': r}
    T_b = np.array(q['T_b']) if isinstance(q['T_b'], list) else q['T_b']
    return (q['T'], T_b, m, cp, n), {'segment_ratios': r}


def invoke(world, network, q, args=None, kwargs=None):
    if args is None:
        args, kwargs = build(q)
    if q['f'] == 'network_thermal_resistance':
        return world.networks.network_thermal_resistance(network, *args)
    return getattr(network, q['f'])(*args, **kwargs)


def run(world, network, q, buffers=None):
    if buffers is not None and buffers.on:
        return kit.call(invoke, world, network, q,
                        *buffers.call(*build(q)))
    return kit.call(invoke, world, network, q)


def fresh_answer(worldcls, net, q):
    w = worldcls()
    try:
        return kit.frozen(run(w, make_network(w, net), q))
    finally:
        w.close()


def with_update(net, i, u):
    pipes = list(net['pipes'])
    pipes[i] = kit.with_resistances(pipes[i], u)
    return dict(net, pipes=pipes)


compare = pipeq.compare
