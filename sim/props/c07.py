"""C07  Energy is conserved at every step of an operating history."""
import numpy as np

from .. import kit, netq, operate, pipeq

ID = 'C07'
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('a run is one operating history of 3-14 steps (up to 24 in the '
        'thorough tier) of a pipe or network with changing flows, '
        'directions, fluids, discretisations, resistances, and disturbed by '
        'other queries and faults; non-trivial: balances checked after the '
        'first operation; distinct by the digest of its event log')
REAL = ['pygfunction.pipes', 'pygfunction.networks', 'pygfunction.boreholes',
        'numpy', 'scipy']
STUBS = ['the plant around the heat exchangers (wall temperatures, '
         'set points)', 'delivery of interrupts', 'failing numpy routines']
STATE_MEASURE = ('pairs of successive (network or pipe, class, direction of '
                 'flow, number of boreholes, kind of step)')
ASSUMPTIONS = ['moderate numbers of transfer units (as met in practice), so '
               'that balances hold to 2e-5 of the exchanged heat']
RTOL = 2e-5
simplify = operate.simplify


def generate(rng, tier):
    return operate.gen_history(rng, tier, control=False)


def execute(plan, ctx):
    operate.Plant(plan, ctx, network_step if plan['net'] else pipe_step)


def near(a, b, scale, tol=RTOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f'shapes {a.shape} and {b.shape}'
    if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        return f'not finite: {a} and {b}'
    err = float(np.max(np.abs(a - b), initial=0.))
    if err > tol * scale:
        return f'{a} and {b} differ by {err:.3e} (scale {scale:.3e})'
    return None


def require(ctx, i, name, a, b, scale):
    d = near(a, b, scale)
    ctx.check(d is None, name, lambda: f'op {i}: {d}')


# ---------------------------------------------------------------------------

def pipe_step(pl, i, op):
    ctx, pipe, p = pl.ctx, pl.obj, pl.cur
    a = op['a']
    T_b = pl.T_b(op)
    n_in = kit.n_inlets(p)
    if 'iso' in op:
        T_b = np.full(a['n'], op['iso'])
        T_in = np.full(n_in, op['iso'])
    else:
        T_in = np.array(op['T'])
    Ti = float(T_in[0]) if n_in == 1 else T_in
    m, cp, n, r = pipeq.arrays(a)
    kw = {'segment_ratios': r}
    H = p['b']['H']
    z = operate.edges(H, n, a['ratios'])
    # the same depths in another order, the first of them twice
    up = operate.order(op, range(len(z)))
    up = up + up[:1]
    get = {
        'T_u': lambda: pipe.get_temperature(
            z[up], Ti, T_b, m, cp, **kw),
        'T_out': lambda: pipe.get_outlet_temperature(Ti, T_b, m, cp, **kw),
        'Q_b': lambda: pipe.get_borehole_heat_extraction_rate(
            Ti, T_b, m, cp, **kw),
        'Q_f': lambda: pipe.get_fluid_heat_extraction_rate(
            Ti, T_b, m, cp, **kw),
        'Q_t': lambda: pipe.get_total_heat_extraction_rate(
            Ti, T_b, m, cp, **kw),
        'T_z': lambda: pipe.get_temperature(z, Ti, T_b, m, cp, **kw),
        'a_out': lambda: pipe.coefficients_outlet_temperature(m, cp, n, **kw),
        'a_b': lambda: pipe.coefficients_borehole_heat_extraction_rate(
            m, cp, n, **kw),
        'a_f': lambda: pipe.coefficients_fluid_heat_extraction_rate(
            m, cp, n, **kw),
        'a_z': lambda: pipe.coefficients_temperature(z, m, cp, n, **kw)}
    if op.get('scalar') and n == 1:
        T_w = float(T_b[0])
        for k, f in (('T_out', 'get_outlet_temperature'),
                     ('Q_b', 'get_borehole_heat_extraction_rate'),
                     ('Q_f', 'get_fluid_heat_extraction_rate'),
                     ('Q_t', 'get_total_heat_extraction_rate')):
            get[k] = lambda f=f: getattr(pipe, f)(Ti, T_w, m, cp, **kw)
        get['T_z'] = lambda: pipe.get_temperature(z, Ti, T_w, m, cp, **kw)
        ctx.count('steps with one wall temperature given as a number')
    if 'split' in op:
        T_2, (n_2,), (r_2,), k_2 = operate.split_segment(
            op, T_b, [n], None if r is None else [r])
        z_2 = operate.edges(H, n_2, r_2)
        get['split_T'] = lambda: pipe.get_outlet_temperature(
            Ti, T_2, m, cp, segment_ratios=r_2)
        get['split_Q'] = lambda: pipe.get_borehole_heat_extraction_rate(
            Ti, T_2, m, cp, segment_ratios=r_2)
        # the profile of the original segments, also within a segment
        get['split_z'] = lambda: pipe.get_temperature(
            z_2, Ti, T_b, m, cp, **kw)
    R_args = n_in == 1
    if R_args:
        get['R'] = lambda: pipe.effective_borehole_thermal_resistance(m, cp)
        get['T_out1'] = lambda: pipe.get_outlet_temperature(
            Ti, np.array([T_b[0]]), m, cp)
        get['Q_1'] = lambda: pipe.get_borehole_heat_extraction_rate(
            Ti, np.array([T_b[0]]), m, cp)
    v = {k: get[k]() for k in operate.order(op, sorted(get))}
    Q_b = np.atleast_1d(v['Q_b'])
    Q_f = np.atleast_1d(v['Q_f'])
    T_out = np.atleast_1d(v['T_out'])
    ctx.event(i, 'step', Q_b, Q_f, T_out)
    mi = np.abs(np.atleast_1d(m))
    dT = max(1., float(np.max(np.abs(T_b[None, :] - T_in[:, None]))))
    sQ = float(np.max(mi * cp)) * dT

    def req(name, x, y, scale):
        require(ctx, i, name, x, y, scale)
    req('segments-vs-fluid', np.sum(Q_b), np.sum(Q_f), sQ)
    req('total-vs-fluid', v['Q_t'], np.sum(Q_f), sQ)
    req('fluid-balance', Q_f, mi * cp * (T_out - T_in), sQ)
    # the coefficients and the answers are one model
    x_in, x_b = v['a_out']
    req('outlet-coefficients', T_out, (x_in @ T_in + x_b @ T_b).ravel(), dT)
    x_in, x_b = v['a_b']
    req('heat-coefficients', Q_b, (x_in @ T_in + x_b @ T_b).ravel(), sQ)
    x_in, x_b = v['a_f']
    req('fluid-coefficients', Q_f, (x_in @ T_in + x_b @ T_b).ravel(), sQ)
    profile(ctx, i, p, v['T_z'], T_in, T_out, Q_b, mi, cp, dT, sQ)
    req('profile-of-unordered-depths', v['T_u'], np.asarray(v['T_z'])[up],
        dT)
    z_in, z_b = v['a_z']
    for k in range(len(z)):
        req('profile-coefficients', v['T_z'][k],
            (z_in[k] @ T_in + z_b[k] @ T_b).ravel(), dT)
    if 'split' in op:
        ctx.count('steps with a segment in two parts')
        req('parts-outlet', np.atleast_1d(v['split_T']), T_out, dT)
        req('parts-heat', operate.joined(v['split_Q'], k_2), Q_b, sQ)
        profile(ctx, i, p, v['split_z'], T_in, T_out,
                np.ravel(v['split_Q']), mi, cp, dT, sQ)
    if 'iso' in op:
        ctx.count('isothermal steps')
        req('isothermal-heat', Q_b, np.zeros(n), sQ)
        req('isothermal-outlet', T_out, T_in, dT)
        req('isothermal-profile', v['T_z'], np.full(v['T_z'].shape,
                                                    op['iso']), dT)
    if R_args:
        T_m = 0.5 * (float(Ti) + float(np.squeeze(v['T_out1'])))
        req('effective-resistance',
            v['R'] * float(np.squeeze(v['Q_1'])) / H, T_b[0] - T_m, dT)
    pl.feedback(Q_b)


def profile(ctx, i, p, T_z, T_in, T_out, Q_b, mi, cp, dT, sQ):
    """Fluid temperatures at the edges of the segments."""
    n_in = len(T_in)
    head, bottom = np.asarray(T_z[0]), np.asarray(T_z[-1])
    legs = len(head)

    def has(values, x):
        return np.min(np.abs(values - x)) <= RTOL * dT
    tubes = p.get('n', 1)
    for k in range(n_in):
        pair = head if n_in == 1 else head[[k, k + tubes]]
        ctx.check(has(pair, T_in[k]), 'profile-joins-inlet',
                  lambda: f'op {i}: inlet {T_in[k]} not among {pair}')
        if p['kind'] != 'multi' or p['config'] == 'series':
            ctx.check(has(pair, T_out[k]), 'profile-joins-outlet',
                      lambda: f'op {i}: outlet {T_out[k]} not among {pair}')
        if p['kind'] == 'multi' and p['config'] == 'parallel':
            d = near(np.mean(head), 0.5 * (T_in[0] + T_out[0]), dT)
            ctx.check(d is None, 'profile-mixes-to-outlet',
                      lambda: f'op {i}: {d}')
    # the two legs of each U-tube (or coaxial pipe) join at the bottom
    d = near(bottom[:tubes], bottom[tubes:], dT)
    ctx.check(d is None, 'profile-joins-at-bottom', lambda: f'op {i}: {d}')
    # enthalpy gained by the fluid along each segment = heat of the segment
    if p['kind'] == 'multi':
        ml = np.full(tubes, mi[0] if p['config'] == 'series'
                     else mi[0] / tubes)
    else:
        ml = mi
    T = np.asarray(T_z)
    drop = T[:-1] - T[1:]                    # per segment, per leg
    per_tube = (drop[:, tubes:] - drop[:, :tubes]) * ml * cp
    worst = None
    for s in operate.sign_combinations(tubes if p['kind'] == 'indep' else 1):
        q = per_tube @ (np.array(s) if len(s) > 1
                        else np.full(tubes, s[0]))
        d = near(q, Q_b, sQ)
        if d is None:
            return
        worst = worst or d
    ctx.check(False, 'profile-vs-segment-heat', lambda: f'op {i}: {worst}')


# ---------------------------------------------------------------------------

def network_step(pl, i, op):
    ctx, nw, net = pl.ctx, pl.obj, pl.cur
    a = op['a']
    nb = len(net['pipes'])
    ns = a['n'] if isinstance(a['n'], list) else [a['n']] * nb
    T_b = pl.T_b(op)
    T_in = op['T'][0] if 'T' in op else op['iso']
    if 'iso' in op:
        T_b = np.full(sum(ns), op['iso'])
    (m, cp, n), kw = netq.build(dict(a, f='coef'))
    mb, up, last = operate.flows(net, a['m'])
    args = (T_in, T_b, m, cp, n)
    if op.get('scalar'):
        args = (T_in, float(T_b[0]), m, cp, n)
        ctx.count('steps with one wall temperature given as a number')
    cpx, cp = cp, a['cp']
    G = {'T_i': 'get_inlet_temperature', 'T_o': 'get_outlet_temperature',
         'Q_b': 'get_borehole_heat_extraction_rate',
         'Q_f': 'get_fluid_heat_extraction_rate',
         'T_no': 'get_network_outlet_temperature',
         'Q_n': 'get_network_heat_extraction_rate'}
    get = {k: (lambda f=f: getattr(nw, f)(*args, **kw))
           for k, f in G.items()}
    C = {'a_i': 'coefficients_inlet_temperature',
         'a_o': 'coefficients_outlet_temperature',
         'a_b': 'coefficients_borehole_heat_extraction_rate',
         'a_f': 'coefficients_fluid_heat_extraction_rate',
         'a_no': 'coefficients_network_outlet_temperature',
         'a_n': 'coefficients_network_heat_extraction_rate'}
    get.update({k: (lambda f=f: getattr(nw, f)(m, cpx, n, **kw))
                for k, f in C.items()})
    if 'split' in op:
        r = kw['segment_ratios']
        T_2, n_2, r_2, k_2 = operate.split_segment(
            op, T_b, ns, r if r is None or isinstance(r, list) else [r] * nb)
        A_2 = (T_in, T_2, m, cpx, n_2)
        get['split_T'] = lambda: nw.get_network_outlet_temperature(
            *A_2, segment_ratios=r_2)
        get['split_Q'] = lambda: nw.get_borehole_heat_extraction_rate(
            *A_2, segment_ratios=r_2)
    T_1 = float(T_b[0])
    get['R'] = lambda: pl.w.networks.network_thermal_resistance(nw, m, cpx)
    get['T_n1'] = lambda: nw.get_network_outlet_temperature(
        T_in, T_1, m, cpx, 1)
    get['Q_n1'] = lambda: nw.get_network_heat_extraction_rate(
        T_in, T_1, m, cpx, 1)
    v = {k: get[k]() for k in operate.order(op, sorted(get))}
    Q_b = np.ravel(v['Q_b'])
    Q_f, T_i, T_o = (np.ravel(v[k]) for k in ('Q_f', 'T_i', 'T_o'))
    T_no, Q_n = float(np.squeeze(v['T_no'])), float(np.squeeze(v['Q_n']))
    ctx.event(i, 'step', Q_b, Q_f, T_i, T_o, T_no, Q_n)
    dT = max(1., float(np.max(np.abs(T_b - T_in))))
    sQ = float(np.max(np.abs(mb))) * cp * dT

    def req(name, x, y, scale):
        require(ctx, i, name, x, y, scale)
    req('segments-vs-fluid', operate.sum_by_borehole(Q_b, ns), Q_f, sQ)
    req('borehole-balance', Q_f, np.abs(mb) * cp * (T_o - T_i), sQ)
    req('network-vs-boreholes', Q_n, np.sum(Q_b), sQ * nb)
    m_tot = float(np.sum(np.abs(mb)[last]))
    req('network-balance', Q_n, m_tot * cp * (T_no - T_in), sQ * nb)
    req('inlets-follow-connections', T_i, np.array(
        [T_in if u == -1 else T_o[u] for u in up]), dT)
    req('outlets-mix-by-flow', T_no,
        float(np.sum(np.abs(mb)[last] * T_o[last])) / m_tot, dT)
    for k, y, s in (('a_i', T_i, dT), ('a_o', T_o, dT), ('a_b', Q_b, sQ),
                    ('a_f', Q_f, sQ)):
        x_in, x_b = v[k]
        req(f'coefficients-{k}', y, np.ravel(x_in * T_in)
            + np.ravel(x_b @ T_b), s)
    for k, y, s in (('a_no', T_no, dT), ('a_n', Q_n, sQ * nb)):
        x_in, x_b = v[k]
        req(f'coefficients-{k}', y, float(np.squeeze(
            np.ravel(x_in * T_in) + np.ravel(x_b @ T_b))), s)
    if 'split' in op:
        ctx.count('steps with a segment in two parts')
        req('parts-outlet', float(np.squeeze(v['split_T'])), T_no, dT)
        req('parts-heat', operate.joined(v['split_Q'], k_2), Q_b, sQ)
    # every borehole obeys its own pipe
    e = np.cumsum([0] + list(ns))
    j = op['order'] % nb
    r = kw['segment_ratios']
    r = r[j] if isinstance(r, list) else r
    T_p = nw.p[j].get_outlet_temperature(
        T_i[j], T_b[e[j]:e[j + 1]], mb[j], cp, segment_ratios=r)
    req('network-vs-pipe', np.ravel(T_p), T_o[j:j + 1], dT)
    if 'iso' in op:
        ctx.count('isothermal steps')
        req('isothermal-heat', Q_b, np.zeros(len(Q_b)), sQ)
        req('isothermal-outlet', T_no, T_in, dT)
    T_m = 0.5 * (T_in + float(np.squeeze(v['T_n1'])))
    req('effective-resistance', float(np.squeeze(v['R']))
        * float(np.squeeze(v['Q_n1'])) / pl.H, T_1 - T_m, dT)
    if len(set(np.abs(mb))) > 1:
        ctx.count('steps with unequal circuit flows')
    pl.feedback(Q_b)
