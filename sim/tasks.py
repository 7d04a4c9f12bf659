"""Parties of a simulation: self-contained scripts, each owning its objects.

A task description is JSON: {'type': ..., ..., 'steps': [...]}.  `Task(world,
desc)` executes it one step at a time; every step returns an answer.  Parties
never share an object, so each one's answers are a function of its own script.
"""
import numpy as np

from . import kit, netq, pipeq

TYPES = ('pipe', 'network', 'static', 'agg', 'gfunc')


# ---------------------------------------------------------------------------
# generation

def gen_pipe_task(rng, spec=None, n=None, methods=pipeq.METHODS[:-1]):
    p = spec or kit.gen_pipe(rng)
    a = pipeq.gen_args(rng, p)
    steps = []
    cur = p
    for _ in range(n or rng.randint(1, 5)):
        if rng.random() < 0.2:
            u = kit.gen_update(rng, cur)
            cur = kit.with_resistances(cur, u)
            steps.append({'u': u})
        else:
            q = pipeq.gen_query(rng, cur, a, methods)
            if rng.random() < 0.05:
                # a call that is rejected
                if rng.random() < 0.5:
                    q = dict(q, m=list(q['m']) + [q['m'][0]] * 2)
                else:
                    q = dict(q, ratios=[0.25] * (4 if q['n'] != 4 else 3))
            steps.append({'q': q})
            if rng.random() < 0.5:
                a, _ = pipeq.near(rng, cur, a)
    return {'type': 'pipe', 'spec': p, 'steps': [{'create': 1}] + steps}


def gen_network_task(rng, spec=None, n=None):
    net = spec or netq.gen_network(rng, nmax=rng.choice([3, 3, 4]))
    a = netq.gen_args(rng, net)
    steps = []
    cur = net
    for _ in range(n or rng.randint(1, 4)):
        if steps and rng.random() < 0.18:
            # a pipe of the network changes, or is used on its own
            i = rng.randrange(len(net['pipes']))
            p = cur['pipes'][i]
            if rng.random() < 0.6:
                u = kit.gen_update(rng, p)
                cur = netq.with_update(cur, i, u)
                steps.append({'u': u, 'i': i})
            else:
                steps.append({'q': pipeq.gen_query(
                    rng, p, pipeq.gen_args(rng, p)), 'i': i})
            if rng.random() < 0.7:
                steps.append(dict(rng.choice([t for t in steps if 'q' in t
                                              and 'i' not in t] or
                                             steps[-1:])))
            continue
        steps.append({'q': netq.gen_query(rng, net, a)})
        a, _ = netq.near(rng, net, a)
    return {'type': 'network', 'spec': net, 'steps': [{'create': 1}] + steps}


def gen_agg_spec(rng, nt, ns=None):
    kind = rng.choice(['ClaessonJaved', 'MLAA', 'Liu'])
    s = {'kind': kind, 'dt': rng.choice([900., 3600., 3600., 1800.]),
         'nt': nt, 'ns': ns or rng.choice([1, 1, 2, 3])}
    if kind == 'ClaessonJaved':
        s['opt'] = {'cells_per_level': rng.choice([2, 3, 5])}
    elif kind == 'MLAA':
        s['opt'] = dict(zip(('N0', 'N1', 'N2', 'N3'),
                            (rng.randint(1, 4) for _ in range(4))))
    else:
        s['opt'] = dict(zip(('N1', 'N2', 'N3', 'W1', 'W2', 'W3'),
                            [rng.randint(1, 3) for _ in range(3)]
                            + [rng.randint(1, 3) for _ in range(3)]))
    s['tau'] = [round(rng.uniform(0.5, 30.), 3) for _ in range(3)]
    s['shape'] = rng.choice(SHAPES)
    return s


SHAPES = ('smooth', 'smooth', 'wavy', 'rough', 'falling')


def g_values(times, ns, tau, shape='smooth'):
    """Response factors of ns sources at given times: smooth and increasing,
    or an arbitrary function of time (the schemes are linear in them)."""
    t = np.asarray(times) / 3600.
    if shape != 'smooth':
        i, j = np.meshgrid(np.arange(ns), np.arange(ns), indexing='ij')
        x = t[None, None, :]
        a = (1. + 0.37 * i - 0.21 * j)[:, :, None]
        if shape == 'wavy':
            g = a * np.log1p(x / tau[0]) + np.sin(x / tau[1] + 3. * a)
        elif shape == 'falling':
            g = a * np.exp(-x / (5. * tau[1])) - 0.5
        else:
            g = 3. * np.sin(1e3 * np.modf(12.9898 * x + 7.233 * a)[0]
                            + tau[2])
        return g[0, 0] if ns == 1 else g
    if ns == 1:
        return np.log1p(t / tau[0]) + 0.1 * t / (t + tau[1])
    g = np.zeros((ns, ns, len(t)))
    for i in range(ns):
        for j in range(ns):
            d = 1. + abs(i - j) * tau[2]
            g[i, j] = (1. + 0.1 * i) * np.log1p(t / (tau[0] * d)) \
                / (1. + 0.3 * j)
    return g


def make_agg(world, s):
    cls = getattr(world.load_aggregation, s['kind'])
    obj = cls(s['dt'], s['dt'] * s['nt'], nSources=s['ns'], **s['opt'])
    obj.initialize(g_values(obj.get_times_for_simulation(), s['ns'],
                            s['tau'], s['shape']))
    return obj


def gen_agg_task(rng, n=None):
    nt = n or rng.randint(3, 12)
    s = gen_agg_spec(rng, nt + 2)
    steps = [{'Q': [kit.uni(rng, -50., 50., 3) for _ in range(s['ns'])]}
             for _ in range(nt)]
    return {'type': 'agg', 'spec': s, 'steps': [{'create': 1}] + steps}


def split_steps(rng, steps):
    """Time steps taken apart, so that something may happen in between."""
    out = []
    for s in steps:
        if 'Q' not in s or rng.random() < 0.4:
            out.append(s)
            continue
        out.append({'next': 1})
        out.append({'load': s['Q']})
        for _ in range(rng.choice([0, 1, 1, 2])):
            out.append({'T': 1})
            if rng.random() < 0.3:
                out.append({'load': [round(x * rng.uniform(0.5, 2.), 3)
                                     for x in s['Q']]})
    return out


def gen_gfunc_spec(rng, network=False, plain=False):
    n = rng.choice([1, 2, 3, 4])
    H = kit.uni(rng, 50., 180., 1)
    bs = []
    for i in range(n):
        b = {'H': H if rng.random() < 0.7 else kit.uni(rng, 50., 180., 1),
             'D': 4., 'r_b': 0.075, 'x': 6. * (i % 2) + 0.3 * i,
             'y': 6.5 * (i // 2)}
        if rng.random() < 0.1:
            b['tilt'] = 0.2
            b['orientation'] = 0.7 * i
        bs.append(b)
    s = {'b': bs, 'method': rng.choice(['similarities', 'equivalent',
                                        'detailed']),
         'bc': rng.choice(['UBWT', 'UHTR']), 'alpha': 1e-6,
         'opt': {'nSegments': rng.choice([2, 3, 4])}}
    if rng.random() < 0.5:
        s['opt']['segment_ratios'] = None
    if rng.random() < 0.3:
        s['opt']['approximate_FLS'] = True
    if rng.random() < 0.2:
        s['opt']['linear_threshold'] = rng.choice([0., 3600. * 50])
    if any(b.get('tilt') for b in bs) and s['method'] == 'equivalent':
        s['method'] = 'similarities'
    if rng.random() < 0.25:
        s['opt'] = {'nSegments': s['opt']['nSegments']}
    elif rng.random() < 0.2:
        s['opt']['segment_ratios'] = kit.ratios(rng, s['opt']['nSegments'])
    if plain and rng.random() < 0.3:
        s['form'] = rng.choice(['field', 'bare'])
        if s['form'] == 'bare':
            del s['b'][1:]
            if s['method'] == 'equivalent' and 'tilt' in s['b'][0]:
                s['method'] = 'similarities'
    if plain and len(s['b']) < 4 \
            and rng.random() < 0.4 and not any('tilt' in b for b in s['b']):
        s['opt'] = {'_none': True}
    if network:
        s['bc'] = 'MIFT'
        base = kit.gen_pipe(rng, kind=rng.choice(['single', 'multi',
                                                  'coax']), network=True)
        s['b'] = [dict({k: v for k, v in b.items()
                        if k not in ('tilt', 'orientation')},
                       r_b=base['b']['r_b']) for b in s['b']]
        s['pipes'] = [dict(base, b=dict(b), reversible=True)
                      for b in s['b']]
        s['c'] = [-1] * n if rng.random() < 0.6 \
            else netq.gen_connectivity(rng, n)
        s['m'] = round(max(kit.flow_scale(p) for p in s['pipes'])
                       * rng.uniform(0.8, 1.6) * s['c'].count(-1), 5)
        s['cp'] = 4000.
    return s


def gen_times(rng, n=None):
    n = n or rng.randint(1, 4)
    t = sorted(kit.logu(rng, 2e4, 5e9, 0) for _ in range(n))
    return [float(x) for x in t]


def make_gfunc(world, s, time=None, opt=None):
    bs = [kit.make_borehole(world, b) for b in s['b']]
    kw = {}
    obj = bs
    if 'pipes' in s:
        pipes = [kit.make_pipe(world, p, borehole=b)
                 for p, b in zip(s['pipes'], bs)]
        obj = world.networks.Network(bs, pipes,
                                     bore_connectivity=list(s['c']))
        kw = {'m_flow_network': float(s['m']), 'cp_f': s['cp']}
    elif s.get('form') == 'field':
        obj = world.borefield.Borefield.from_boreholes(bs)
    elif s.get('form') == 'bare':
        obj = bs[0]
    options = dict(s['opt'])
    options.update(opt or {})
    if options.get('segment_ratios'):
        options['segment_ratios'] = kit.arrays(options['segment_ratios'])
    if not options.pop('_none', False):
        kw['options'] = options
    return world.gfunction.gFunction(
        obj, s['alpha'], time=None if time is None else np.array(time),
        method=s['method'], boundary_condition=s['bc'], **kw)


def gen_gfunc_task(rng, spec=None, n=None):
    net = rng.random() < 0.4
    s = spec or gen_gfunc_spec(rng, network=net, plain=not net)
    return {'type': 'gfunc', 'spec': s,
            'steps': [{'create': 1}] + [
                {'t': gen_times(rng)} for _ in range(n or rng.randint(1, 2))]}


STATIC = ('thermal_resistances', 'multipole', 'fluid', 'convective',
          'friction', 'annulus', 'fls', 'field', 'segment_ratios', 'times',
          'field_ops', 'static_network', 'bore_distance', 'exp1', 'erfint',
          'fls_approx', 'fls_vec', 'fls_incl', 'fls_equiv', 'resistances',
          'segments', 'field_g', 'unique_distance')


def gen_static_step(rng, base=None, f=None):
    given = f
    f = f or rng.choice(STATIC)
    if given is None and base is not None and rng.random() < 0.4:
        f = rng.choice(['thermal_resistances', 'multipole'])
    s = {'f': f}
    if f in ('thermal_resistances', 'multipole'):
        p = base if base is not None and base['kind'] != 'coax' else \
            kit.gen_pipe(rng, kind=rng.choice(['single', 'multi']))
        s['p'] = p
        m = len(p['pos'])
        s['R_fp'] = p['R_fp'] if rng.random() < 0.5 else [
            round(p['R_fp'] * rng.uniform(0.9, 1.1), 5) for _ in range(m)]
        s['q'] = [kit.uni(rng, -20., 30., 2) for _ in range(m)]
    elif f == 'fluid':
        s['name'] = rng.choice(['Water', 'MEG', 'MPG', 'MEA', 'MMA'])
        s['pct'] = 0. if s['name'] == 'Water' else kit.uni(rng, 5., 25., 1)
        s['T'] = kit.uni(rng, 2., 25., 1)
        if rng.random() < 0.5:
            # usual values
            s['T'] = rng.choice([5., 10., 20.])
            if s['pct']:
                s['pct'] = rng.choice([10., 20.])
    elif f in ('convective', 'friction', 'annulus'):
        s['m'] = kit.uni(rng, 0.05, 0.6, 4)
        s['r'] = kit.uni(rng, 0.01, 0.025, 4)
        s['T'] = kit.uni(rng, 2., 25., 1)
        s['pct'] = kit.uni(rng, 5., 25., 1)
        if rng.random() < 0.5:
            s['T'], s['pct'] = rng.choice([5., 20.]), rng.choice([10., 20.])
    elif f == 'fls':
        s['H'] = [kit.uni(rng, 50., 150., 1) for _ in range(2)]
        s['d'] = kit.uni(rng, 0.1, 20., 2)
        s['t'] = gen_times(rng, 2)
        s['approx'] = rng.random() < 0.4
    elif f in ('field', 'field_ops'):
        s['shape'] = rng.choice(['rectangle_field', 'U_shaped_field',
                                 'L_shaped_field', 'box_shaped_field',
                                 'dense_rectangle_field',
                                 'staggered_rectangle_field',
                                 'circle_field'])
        s['n'] = [rng.randint(2, 4), rng.randint(2, 4)]
        s['H'] = kit.uni(rng, 50., 150., 1)
    elif f == 'segment_ratios':
        s['n'] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
        s['e'] = rng.choice([0.02, 0.05])
    elif f == 'times':
        s['dt'] = rng.choice([900., 3600.])
        s['k'] = rng.randint(20, 400)
        s['which'] = rng.choice(['time_ClaessonJaved', 'time_MarcottePasquier',
                                 'time_geometric'])
    elif f == 'static_network':
        s['type'] = rng.choice(['SINGLE_UTUBE', 'DOUBLE_UTUBE_PARALLEL',
                                'DOUBLE_UTUBE_SERIES', 'COAXIAL_ANNULAR_IN',
                                'COAXIAL_ANNULAR_OUT'])
        s['m'] = kit.uni(rng, 0.5, 1.5, 3)
        s['nb'] = rng.choice([1, 2])
        s['T'] = kit.uni(rng, 2., 25., 1)
    elif f == 'bore_distance':
        s['xy'] = [kit.uni(rng, 0., 20., 2) for _ in range(4)]
    elif f in ('exp1', 'erfint'):
        s['x'] = [kit.logu(rng, 1e-3, 8., 6)
                  for _ in range(rng.choice([1, 2, 3]))]
    elif f.startswith('fls_'):
        n = rng.choice([1, 2, 2, 3])
        s['t'] = gen_times(rng, rng.choice([1, 2, 2, 3]))
        s['v'] = [[kit.uni(rng, a, b, 3) for _ in range(n)] for a, b in (
            (0.3, 20.), (60., 150.), (1., 6.), (60., 150.), (1., 6.),
            (0., 0.4), (0., 6.), (0., 0.4), (0., 6.), (1., 20.))]
        s['N'] = rng.choice([8, 10, 10, 12])
        s['approx'] = rng.random() < 0.5
    elif f == 'resistances':
        s['type'] = rng.choice(['SINGLE_UTUBE', 'DOUBLE_UTUBE_PARALLEL',
                                'DOUBLE_UTUBE_SERIES', 'COAXIAL_ANNULAR_IN',
                                'COAXIAL_ANNULAR_OUT'])
        s['m'] = kit.uni(rng, 0.1, 0.8, 3)
        s['T'] = kit.uni(rng, 2., 25., 1)
        s['k'] = kit.uni(rng, 0.3, 0.6, 3)
    elif f == 'segments':
        s['n'] = rng.choice([2, 3, 4])
        s['ratios'] = kit.ratios(rng, s['n']) if rng.random() < 0.6 else None
        s['H'] = kit.uni(rng, 50., 150., 1)
        s['tilt'] = rng.choice([0., 0.2])
    elif f in ('field_g', 'unique_distance'):
        n = rng.choice([1, 2, 3])
        s['H'] = kit.uni(rng, 50., 150., 1)
        s['x'] = [round(7. * i + rng.random(), 2) for i in range(n)]
        s['y'] = [round(5. * i * rng.random(), 2) for i in range(n)]
        s['t'] = gen_times(rng, 2)
        s['opt'] = rng.choice([None, {}, {'nSegments': 2},
                               {'nSegments': 3, 'segment_ratios': None}])
        s['method'] = rng.choice(['similarities', 'equivalent', 'detailed'])
        s['bc'] = rng.choice(['UHTR', 'UBWT'])
    return s


def gen_static_task(rng, base=None, n=None):
    return {'type': 'static', 'steps': [gen_static_step(rng, base)
                                        for _ in range(n or rng.randint(1, 4))]}


COAX = {'COAXIAL_ANNULAR_IN': ([0.0487, 0.0221], [0.055, 0.025]),
        'COAXIAL_ANNULAR_OUT': ([0.0221, 0.0487], [0.025, 0.055])}


def run_more_static(w, s, A, hold):
    """Same, continued; None if not one of these."""
    f = s['f']
    if f in ('exp1', 'erfint'):
        x = A(s['x']) if len(s['x']) > 1 else s['x'][0]
        return getattr(w.utilities, f)(x)
    if f.startswith('fls_'):
        t = A(s['t']) if len(s['t']) > 1 else s['t'][0]
        v = [A(x) for x in s['v']]
        d, H1, D1, H2, D2 = v[:5]
        ht = w.heat_transfer
        if f == 'fls_approx':
            return ht.finite_line_source_approximation(
                t, 1e-6, d, H1, D1, H2, D2, N=s['N'])
        if f == 'fls_vec':
            return ht.finite_line_source_vectorized(
                t, 1e-6, d, H1, D1, H2, D2, approximation=s['approx'],
                N=s['N'])
        if f == 'fls_equiv':
            # equivalent boreholes: many distances, one pair
            return ht.finite_line_source_equivalent_boreholes_vectorized(
                t, 1e-6, A(sorted(s['v'][0])),
                A([[float(1 + i)] for i in range(len(s['v'][0]))]),
                *(A([x]) for x in s['v'][1:5]), A([[2.]]))
        return ht.finite_line_source_inclined_vectorized(
            t, 1e-6, A([0.075] * len(s['v'][0])), A(s['v'][6]),
            A(s['v'][7]), H1, D1, v[5], v[6],
            A(s['v'][9]), A([3.] * len(s['v'][0])), H2, D2, v[7], v[8],
            approximation=s['approx'], N=s['N'], M=11)
    if f == 'resistances':
        kind = getattr(w.enums.PipeType, s['type'])
        fl = w.media.Fluid('MPG', 15., T=s['T'])
        if s['type'] in COAX:
            ri, ro = (A(x) for x in COAX[s['type']])
            k = A([s['k'], s['k'] * 1.1])
        else:
            ri, ro, k = 0.0127, 0.0157, s['k']
        out = (w.pipes.fluid_to_pipe_thermal_resistance(
            kind, s['m'], ri, ro, k, 1e-6, fl),)
        if s['type'] in COAX:
            out += (w.pipes.fluid_to_fluid_thermal_resistance(
                kind, s['m'], ri, ro, k, 1e-6, fl),)
        return out
    if f == 'segments':
        b = hold(w.boreholes.Borehole(s['H'], 4., 0.075, 1., 2.,
                                      tilt=s['tilt'], orientation=1.))
        segs = b.segments(s['n'], segment_ratios=None if s['ratios'] is None
                          else A(s['ratios']))
        hold(segs)
        return tuple((x.H, x.D, x.r_b, x.x, x.y, x.tilt, x.orientation)
                     for x in segs)
    if f == 'field_g':
        fld = w.borefield.Borefield(s['H'], 4., 0.075, A(s['x']), A(s['y']))
        kw = {} if s['opt'] is None else {'options': dict(s['opt'])}
        if s['opt'] is None and s['method'] == 'detailed':
            kw['options'] = {'nSegments': 4}
        return fld.evaluate_g_function(1e-6, A(s['t']), method=s['method'],
                                       boundary_condition=s['bc'], **kw)
    if f == 'unique_distance':
        E = w.boreholes._EquivalentBorehole
        a, b = (E((s['H'], 4., 0.075, A([x + o for x in s['x']]), A(s['y']),
                   0., A([0. for _ in s['x']])))
                for o in (0., 30.))
        return a.unique_distance(b) + (a.distance(b),)
    return None


def run_static(w, s, A=np.array, hold=lambda x: x):
    """A makes the arrays passed as arguments; hold is told about the
    boreholes the caller owns."""
    f = s['f']
    P = w.pipes
    out = run_more_static(w, s, A, hold)
    if out is not None:
        return out
    if f in ('thermal_resistances', 'multipole'):
        p = s['p']
        pos = [tuple(x) for x in p['pos']]
        R = A(s['R_fp']) if isinstance(s['R_fp'], list) else s['R_fp']
        if f == 'thermal_resistances':
            return P.thermal_resistances(pos, p['r_out'], p['b']['r_b'],
                                         p['k_s'], p['k_g'], R, J=p['J'])
        Rv = R if isinstance(R, np.ndarray) else A([R] * len(pos))
        T_f, T, it, eps = P.multipole(
            pos, A([p['r_out']] * len(pos)), p['b']['r_b'], p['k_s'],
            p['k_g'], Rv, 3., A(s['q']), max(1, p['J']),
            x_T=A([0.01, 0.2]), y_T=A([0.03, 0.1]))
        return T_f, T, it
    if f == 'fluid':
        fl = w.media.Fluid(s['name'], s['pct'], T=s['T'])
        return (fl.rho, fl.mu, fl.cp, fl.k, fl.nu, fl.Pr)
    if f in ('convective', 'friction', 'annulus'):
        fl = w.media.Fluid('MPG', s['pct'], T=s['T'])
        if f == 'friction':
            return P.fluid_friction_factor_circular_pipe(
                s['m'], s['r'], fl.mu, fl.rho, 1e-6)
        if f == 'convective':
            h = P.convective_heat_transfer_coefficient_circular_pipe(
                s['m'], s['r'], fl.mu, fl.rho, fl.k, fl.cp, 1e-6)
            return h, P.conduction_thermal_resistance_circular_pipe(
                s['r'], s['r'] * 1.2, 0.4)
        return P.convective_heat_transfer_coefficient_concentric_annulus(
            s['m'], s['r'], s['r'] * 2., fl.mu, fl.rho, fl.k, fl.cp, 1e-6)
    if f == 'fls':
        b1 = w.boreholes.Borehole(s['H'][0], 4., 0.075, 0., 0.)
        b2 = w.boreholes.Borehole(s['H'][1], 4., 0.075, s['d'], 0.)
        return w.heat_transfer.finite_line_source(
            A(s['t']), 1e-6, hold(b1), hold(b2), approximation=s['approx'])
    if f in ('field', 'field_ops'):
        B = w.borefield.Borefield
        n1, n2 = s['n']
        if s['shape'] == 'circle_field':
            fld = B.circle_field(n1 + 1, 8., s['H'], 4., 0.075)
        elif s['shape'] == 'dense_rectangle_field':
            fld = B.dense_rectangle_field(n1, n2, 6., False, s['H'], 4.,
                                          0.075)
        elif s['shape'] == 'staggered_rectangle_field':
            fld = B.staggered_rectangle_field(n1, n2, 6., 7., False, s['H'],
                                              4., 0.075)
        else:
            fld = getattr(B, s['shape'])(n1, n2, 6., 7., s['H'], 4., 0.075)
        if f == 'field_ops':
            fld = fld + w.boreholes.Borehole(77., 3., 0.07, 100., 3.)
            fld = w.boreholes.Borehole(78., 3., 0.07, 120., 3.) + fld
            fld = fld[0:len(fld) - 1]
        return tuple(np.array(getattr(fld, k)) for k in (
            'H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation'))
    if f == 'segment_ratios':
        return w.utilities.segment_ratios(s['n'], s['e'])
    if f == 'times':
        if s['which'] == 'time_geometric':
            return w.utilities.time_geometric(s['dt'], s['dt'] * s['k'] * 3,
                                              15)
        return getattr(w.utilities, s['which'])(s['dt'], s['dt'] * s['k'])
    if f == 'static_network':
        bs = [w.boreholes.Borehole(100., 4., 0.075, 7. * i, 0.)
              for i in range(s['nb'])]
        coax = s['type'].startswith('COAX')
        if coax:
            ri, ro, k = [0.0221, 0.0487], [0.025, 0.055], (0.4, 0.4)
            if s['type'] == 'COAXIAL_ANNULAR_IN':
                ri, ro = ri[::-1], ro[::-1]
            pos = [(0., 0.)]
        else:
            ri, ro, k = 0.0127, 0.0157, 0.4
            pos = [(-0.04, 0.), (0., -0.04), (0.04, 0.), (0., 0.04)]
            if s['type'] == 'SINGLE_UTUBE':
                pos = [(-0.04, 0.), (0.04, 0.)]
        net = w.networks.Network.from_static_params(
            bs, s['type'], pos, ri, ro, 2., 1.2, k, s['m'], 1e-6, 'MPG', 15.,
            s['T'])
        return net.coefficients_network_heat_extraction_rate(
            s['m'], net.cp_f, 2)
    if f == 'bore_distance':
        x1, y1, x2, y2 = s['xy']
        b1 = w.boreholes.Borehole(90., 4., 0.075, x1, y1)
        b2 = w.boreholes.Borehole(90., 4., 0.075, x2, y2)
        return b1.distance(b2), b1.is_vertical(), b1.position()
    raise ValueError(f)


# ---------------------------------------------------------------------------
# execution

def precision(d, step):
    """Agreement expected of the answers to a step: thermal resistances are
    remembered for inputs that agree within a (documented) tolerance."""
    if d['type'] == 'agg':
        return 1e-9
    if d['type'] == 'gfunc' and 'pipes' not in d['spec']:
        return 1e-9
    if d['type'] == 'static' and step['f'] not in (
            'thermal_resistances', 'static_network'):
        return 1e-9
    return 2e-5


class Task:
    def __init__(self, world, desc):
        self.w = world
        self.d = desc
        self.obj = None
        self.k = 0
        self.cur = desc.get('spec')

    def __len__(self):
        return len(self.d['steps'])

    def step(self, i):
        s = self.d['steps'][i]
        return getattr(self, '_' + self.d['type'])(s)

    def run_all(self):
        return [kit.frozen(kit.call(self.step, i)) for i in range(len(self))]

    def _pipe(self, s):
        if 'create' in s:
            self.obj = kit.make_pipe(self.w, self.cur)
            return self.obj.local_borehole_thermal_resistance()
        if 'u' in s:
            kit.apply_update(self.obj, self.cur, s['u'])
            self.cur = kit.with_resistances(self.cur, s['u'])
            return self.obj.local_borehole_thermal_resistance()
        return pipeq.invoke(self.w, self.obj, s['q'])

    def _network(self, s):
        if 'create' in s:
            self.obj = netq.make_network(self.w, self.cur)
            return None
        if 'i' in s:
            p, i = self.obj.p[s['i']], s['i']
            if 'q' in s:
                return pipeq.invoke(self.w, p, s['q'])
            kit.apply_update(p, self.cur['pipes'][i], s['u'])
            self.cur = netq.with_update(self.cur, i, s['u'])
            return p.local_borehole_thermal_resistance()
        return netq.invoke(self.w, self.obj, s['q'])

    def _agg(self, s):
        if 'create' in s:
            self.obj = make_agg(self.w, self.cur)
            return self.obj.get_times_for_simulation()
        if 'Q' in s or 'next' in s:
            self.k += 1
            self.obj.next_time_step(self.k * self.cur['dt'])
        q = s.get('Q', s.get('load'))
        if q is not None:
            self.obj.set_current_load(q[0] if self.cur['ns'] == 1
                                      else np.array(q))
        if 'Q' in s or 'T' in s:
            return self.obj.temporal_superposition()
        return None

    def _gfunc(self, s):
        if 'create' in s:
            self.obj = make_gfunc(self.w, self.cur)
            return None
        return self.obj.evaluate_g_function(np.array(s['t']))

    def _static(self, s):
        return run_static(self.w, s)


def perturb_pipe(rng, p):
    """Same pipe but for one property (the pipes are unrelated objects)."""
    p = dict(p, b=dict(p['b']))
    e = rng.choice([3e-5, 1e-4, 1e-3, 1e-2]) * rng.choice([-1, 1])
    what = rng.choice(['k_s', 'k_g', 'R_fp', 'J', 'r_b', 'r_out', 'pos',
                       'rot', 'perm', 'none', 'H', 'config', 'reversible',
                       'drop', 'sign', 'swap'])
    if what in ('k_s', 'k_g', 'R_fp'):
        p[what] = p[what] * (1. + e)
    elif what == 'J':
        p['J'] = (p['J'] + 1) % 4
    elif what == 'r_b':
        p['b']['r_b'] *= 1. + abs(e)
    elif what == 'H':
        p['b']['H'] *= 1.1
    elif what == 'reversible':
        p['reversible'] = not p['reversible']
    elif p['kind'] == 'coax':
        p['R_ff'] = p['R_ff'] * (1. + e)
    elif what == 'r_out':
        p['r_out'] *= 1. - abs(e)
    elif what == 'pos':
        pos = [list(x) for x in p['pos']]
        i = rng.randrange(len(pos))
        pos[i] = [pos[i][0] * (1. - abs(e) * 0.1),
                  pos[i][1] * (1. - abs(e) * 0.1)]
        p['pos'] = pos
        p['r_out'] *= 1. - 2 * abs(e)
    elif what == 'rot':
        p['pos'] = [[-x[1], x[0]] for x in p['pos']]
    elif what == 'sign':
        # mirrored (all legs, so that none overlap)
        f = rng.choice([(-1, 1), (1, -1), (-1, -1)])
        p['pos'] = [[f[0] * x[0], f[1] * x[1]] for x in p['pos']]
    elif what == 'swap':
        p['pos'] = p['pos'][1::-1] + p['pos'][2:]
    elif what == 'perm':
        p['pos'] = p['pos'][1:] + p['pos'][:1]
    elif what == 'config' and p['kind'] == 'multi':
        p['config'] = 'series' if p['config'] == 'parallel' else 'parallel'
    elif what == 'drop' and p['kind'] in ('multi', 'indep'):
        n = p['n']
        if n == 2:
            p['kind'] = 'single'
            p['pos'] = [p['pos'][0], p['pos'][2]]
            p['n'] = 1
    return p, what


def twin(rng, d, base):
    """Another party of the same kind whose arrays have the same shapes."""
    k = d['type']
    if k == 'pipe':
        return gen_pipe_task(rng, perturb_pipe(rng, d['spec'])[0],
                             n=len(d['steps']))
    if k == 'static':
        steps = []
        for s in d['steps']:
            t = gen_static_step(rng, base, f=s['f'])
            r = rng.random()
            if r < 0.2:
                t = dict(s)
            elif r < 0.4:
                # one of the inputs almost equal
                t = nearby(rng, s)
            elif r < 0.75:
                # all but one of the inputs equal
                q = rng.choice([x for x in s if x != 'f'])
                if q in t and len(str(t[q])) < 400:
                    u = dict(s, **{q: t[q]})
                    if static_ok(u):
                        t = u
            steps.append(t)
        return dict(d, steps=steps)
    if k == 'agg':
        s = dict(d['spec'])
        w = rng.choice(['tau', 'shape', 'Q', 'Q', 'kind', 'dt'])
        if w == 'tau':
            s['tau'] = [round(x * 1.3, 3) for x in s['tau']]
        elif w == 'shape':
            s['shape'] = rng.choice(SHAPES)
        elif w == 'kind':
            o = gen_agg_spec(rng, s['nt'], s['ns'])
            s = dict(o, dt=s['dt'], tau=s['tau'])
        elif w == 'dt':
            s['dt'] = s['dt'] * 2.
        steps = [t if 'Q' not in t else
                 {'Q': [round(x * rng.uniform(-1., 2.), 3) for x in t['Q']]}
                 for t in d['steps']]
        return dict(d, spec=s, steps=steps)
    if k == 'network':
        s = dict(d['spec'])
        ps = list(s['pipes'])
        i = rng.randrange(len(ps))
        q = dict(ps[i])
        w = rng.choice(['k_s', 'k_g', 'R_fp', 'H', 'c', 'c', 'order'])
        if w == 'c':
            # as many circuits of as many boreholes
            same = [c for c in (netq.gen_connectivity(rng, len(ps))
                                for _ in range(8))
                    if c.count(-1) == s['c'].count(-1) and c != s['c']]
            if same:
                s['c'] = same[0]
        elif w == 'order':
            # the same boreholes in another order
            ps.insert(0, ps.pop())
            q = ps[i]
        elif w == 'H':
            q['b'] = dict(q['b'], H=q['b']['H'] * 1.1)
        else:
            q[w] = q[w] * (1. + rng.choice([1e-4, 1e-2, 0.1]))
        ps[i] = q
        s['pipes'] = ps
        return dict(d, spec=s)
    if k == 'gfunc':
        s = dict(d['spec'])
        w = rng.choice(['alpha', 'H', 'x', 'form', 'method', 'bc', 't',
                        'same', 'size', 'form', 'size'])
        if w == 'alpha':
            s['alpha'] = s['alpha'] * 1.1
        elif w == 'H' and 'pipes' not in s:
            s['b'] = [dict(b, H=b['H'] * 1.1) for b in s['b']]
        elif w == 'x' and 'pipes' not in s:
            s['b'] = [dict(b, x=b['x'] * 1.2) for b in s['b']]
        elif w in ('form', 'size') and 'pipes' not in s \
                and not any('tilt' in b for b in s['b']) \
                and not isinstance(s['opt'].get('nSegments'), list):
            b0 = dict(s['b'][0])
            s['b'] = [b0] + [dict(b0, x=b0['x'] + 6. * (i + 1), y=1. * i)
                             for i in range(rng.choice([0, 1, 2]))]
            s['form'] = rng.choice(['list', 'field']) if len(s['b']) > 1 \
                else rng.choice(['list', 'field', 'bare', 'bare'])
        elif w == 'method' and not any('tilt' in b for b in s['b']) \
                and 'mb' not in s:
            s['method'] = rng.choice(['similarities', 'equivalent'])
        elif w == 'bc' and 'pipes' not in s:
            s['bc'] = 'UHTR' if s['bc'] == 'UBWT' else 'UBWT'
        steps = d['steps']
        if w == 't':
            steps = [t if 't' not in t else {'t': [x * 1.2 for x in t['t']]}
                     for t in steps]
        return dict(d, spec=s, steps=steps)
    return d


def nearby(rng, s):
    """The same step with one number slightly different."""
    e = rng.choice([1e-5, 1e-4, 1e-3, 1e-2]) * rng.choice([-1, 1])
    ks = [k for k, v in s.items() if isinstance(v, float) and v
          or isinstance(v, list) and v
          and all(isinstance(x, float) for x in v)]
    ks = [k for k in ks if not (k == 'ratios' and s[k])]
    if not ks:
        return dict(s)
    k = rng.choice(sorted(ks))
    v = s[k]
    if isinstance(v, list):
        i = rng.randrange(len(v))
        v = v[:i] + [v[i] * (1. + e)] + v[i + 1:]
        if k == 't':
            v = sorted(v)
    else:
        v = v * (1. + e)
    return dict(s, **{k: v})


def static_ok(s):
    """Whether a step pieced together from two others makes sense."""
    f = s['f']
    if f in ('thermal_resistances', 'multipole'):
        m = len(s['p']['pos'])
        return (not isinstance(s['R_fp'], list) or len(s['R_fp']) == m) \
            and len(s['q']) == m
    if f == 'fluid':
        return (s['name'] == 'Water') == (s['pct'] == 0.)
    if f == 'segments':
        return s['ratios'] is None or len(s['ratios']) == s['n']
    if f in ('field_g', 'unique_distance'):
        return len(s['x']) == len(s['y'])
    return True


def gen_parties(rng, base, n, gen=None):
    """n parties; in some simulations all are variants of one."""
    gen = gen or gen_party
    if rng.random() < 0.6:
        return [gen(rng, base) for _ in range(n)]
    first = gen(rng, base)
    if rng.random() < 0.7:
        k = rng.choice(['gfunc', 'agg', 'network', 'static', 'static',
                        'gfunc'])
        first = gen_gfunc_task(rng) if k == 'gfunc' else \
            gen_agg_task(rng) if k == 'agg' else \
            gen_network_task(rng) if k == 'network' else \
            gen_static_task(rng, base)
    out = [first]
    while len(out) < n:
        out.append(twin(rng, rng.choice(out), base))
    rng.shuffle(out)
    return out


def gen_party(rng, base):
    """One party; pipes are often near copies of `base`."""
    r = rng.random()
    if r < 0.40:
        spec = base if rng.random() < 0.15 else perturb_pipe(rng, base)[0]
        return gen_pipe_task(rng, spec)
    if r < 0.64:
        return gen_static_task(rng, base)
    if r < 0.76:
        return gen_network_task(rng)
    if r < 0.88:
        return gen_agg_task(rng)
    return gen_gfunc_task(rng)
