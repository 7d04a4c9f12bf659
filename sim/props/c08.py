"""C08  Inverse control: prescribed heat yields exactly that heat."""
import numpy as np

from .. import kit, netq, operate, pipeq
from .c07 import near, require

ID = 'C08'
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('a run is one control history of 3-14 steps (up to 24 in the '
        'thorough tier) of a pipe or network alternating between prescribed '
        'heat and prescribed inlet temperature, with changing flows, '
        'directions, discretisations, resistances, disturbed by other '
        'queries and faults; non-trivial: a step checked after the first '
        'operation; distinct by the digest of its event log')
REAL = ['pygfunction.pipes', 'pygfunction.networks', 'pygfunction.boreholes',
        'numpy', 'scipy']
STUBS = ['the plant and its controller', 'delivery of interrupts',
         'failing numpy routines']
STATE_MEASURE = ('pairs of successive (network or pipe, class, direction of '
                 'flow, number of boreholes, kind of step)')
ASSUMPTIONS = ['moderate numbers of transfer units (as met in practice)']
simplify = operate.simplify


def generate(rng, tier):
    return operate.gen_history(rng, tier, control=True)


def execute(plan, ctx):
    operate.Plant(plan, ctx, network_step if plan['net'] else pipe_step)


def squeeze(x, n_in):
    x = np.ravel(x)
    return float(x[0]) if n_in == 1 else x


def pipe_step(pl, i, op):
    ctx, pipe, p = pl.ctx, pl.obj, pl.cur
    a = op['a']
    T_b = pl.T_b(op)
    n_in = kit.n_inlets(p)
    m, cp, n, r = pipeq.arrays(a)
    kw = {'segment_ratios': r}
    mi = np.abs(np.atleast_1d(m))
    if op.get('scalar') and n == 1:
        T_w = float(T_b[0])
        ctx.count('steps with one wall temperature given as a number')
    else:
        T_w = T_b
    if 'Q' in op:
        Q = np.array(op['Q'])
        T_in = np.ravel(pipe.get_inlet_temperature(
            squeeze(Q, n_in), T_w, m, cp, **kw))
        Ti = squeeze(T_in, n_in)
        scale = max(1., float(np.max(np.abs(T_in[:, None] - T_b[None, :]))))
        sQ = float(np.max(mi * cp)) * scale
        get = {
            'Q_f': lambda: pipe.get_fluid_heat_extraction_rate(
                Ti, T_w, m, cp, **kw),
            'Q_b': lambda: pipe.get_borehole_heat_extraction_rate(
                Ti, T_w, m, cp, **kw),
            'Q_t': lambda: pipe.get_total_heat_extraction_rate(
                Ti, T_w, m, cp, **kw),
            'T_out': lambda: pipe.get_outlet_temperature(
                Ti, T_w, m, cp, **kw),
            'c': lambda: pipe.coefficients_inlet_temperature(m, cp, n, **kw)}
        v = {k: get[k]() for k in operate.order(op, sorted(get))}
        ctx.event(i, 'heat', T_in, v['Q_f'])
        ctx.count('steps with prescribed heat')
        require(ctx, i, 'prescribed-heat', np.ravel(v['Q_f']), Q, sQ)
        require(ctx, i, 'prescribed-total', float(v['Q_t']),
                float(np.sum(Q)), sQ)
        require(ctx, i, 'prescribed-heat-of-segments',
                float(np.sum(v['Q_b'])), float(np.sum(Q)), sQ)
        require(ctx, i, 'outlet-for-heat', np.ravel(v['T_out']),
                T_in + Q / (mi * cp), scale)
        c_q, c_b = v['c']
        require(ctx, i, 'inlet-coefficients', T_in,
                np.ravel(c_q @ Q) + np.ravel(c_b @ T_b), scale)
        if 'split' in op:
            T_2, _, (r_2,), _ = operate.split_segment(
                op, T_b, [n], None if r is None else [r])
            parts = np.ravel(pipe.get_inlet_temperature(
                squeeze(Q, n_in), T_2, m, cp, segment_ratios=r_2))
            require(ctx, i, 'parts-set-point', parts, T_in, scale)
            ctx.count('steps with a segment in two parts')
        # asked again, the controller gets the same set point
        again = np.ravel(pipe.get_inlet_temperature(
            squeeze(Q, n_in), T_w, m, cp, **kw))
        require(ctx, i, 'same-set-point', again, T_in, scale)
        pl.feedback(v['Q_b'])
        return
    T_in = np.array(op['T'])
    Ti = squeeze(T_in, n_in)
    Q = np.ravel(pipe.get_fluid_heat_extraction_rate(Ti, T_w, m, cp, **kw))
    back = np.ravel(pipe.get_inlet_temperature(
        squeeze(Q, n_in), T_w, m, cp, **kw))
    scale = max(1., float(np.max(np.abs(T_in[:, None] - T_b[None, :]))))
    # the inlet temperature is recovered as far as the heat determines it
    eff = conditioning(pipe.coefficients_fluid_heat_extraction_rate(
        m, cp, n, **kw)[0], mi * cp)
    ctx.event(i, 'inlet', Q, back)
    ctx.count('steps with prescribed inlet')
    require(ctx, i, 'recovered-inlet', back, T_in, scale * eff)
    pl.feedback(Q)


def conditioning(a_in, mcp):
    """Amplification of relative errors of the heat in the inverse problem."""
    try:
        return max(1., float(np.max(np.abs(np.linalg.inv(
            np.atleast_2d(a_in) / np.max(mcp))))))
    except np.linalg.LinAlgError:
        return np.inf


def network_step(pl, i, op):
    ctx, nw, net = pl.ctx, pl.obj, pl.cur
    a = op['a']
    nb = len(net['pipes'])
    T_b = pl.T_b(op)
    (m, cpx, n), kw = netq.build(dict(a, f='coef'))
    cp = a['cp']
    mb, up, last = operate.flows(net, a['m'])
    m_tot = float(np.sum(np.abs(mb)[last]))
    T_w = T_b
    if op.get('scalar'):
        T_w = float(T_b[0])
        ctx.count('steps with one wall temperature given as a number')
    if 'Q' in op:
        Q = op['Q'][0]
        T_in = float(np.squeeze(nw.get_network_inlet_temperature(
            Q, T_w, m, cpx, n, **kw)))
        scale = max(1., float(np.max(np.abs(T_in - T_b))))
        sQ = m_tot * cp * scale
        A = (T_in, T_w, m, cpx, n)
        get = {
            'Q_n': lambda: nw.get_network_heat_extraction_rate(*A, **kw),
            'Q_f': lambda: nw.get_fluid_heat_extraction_rate(*A, **kw),
            'Q_b': lambda: nw.get_borehole_heat_extraction_rate(*A, **kw),
            'T_no': lambda: nw.get_network_outlet_temperature(*A, **kw),
            'c': lambda: nw.coefficients_network_inlet_temperature(
                m, cpx, n, **kw)}
        v = {k: get[k]() for k in operate.order(op, sorted(get))}
        ctx.event(i, 'heat', T_in, v['Q_n'])
        ctx.count('steps with prescribed heat')
        require(ctx, i, 'prescribed-heat', float(np.squeeze(v['Q_n'])), Q,
                sQ)
        for k in ('Q_f', 'Q_b'):
            require(ctx, i, f'prescribed-heat-{k}', float(np.sum(v[k])), Q,
                    sQ)
        require(ctx, i, 'outlet-for-heat', float(np.squeeze(v['T_no'])),
                T_in + Q / (m_tot * cp), scale)
        c_q, c_b = v['c']
        require(ctx, i, 'inlet-coefficients', T_in, float(np.squeeze(
            np.ravel(c_q * Q) + np.ravel(c_b @ T_b))), scale)
        if 'split' in op:
            r = kw['segment_ratios']
            ns = a['n'] if isinstance(a['n'], list) else [a['n']] * nb
            T_2, n_2, r_2, _ = operate.split_segment(
                op, T_b, ns,
                r if r is None or isinstance(r, list) else [r] * nb)
            parts = float(np.squeeze(nw.get_network_inlet_temperature(
                Q, T_2, m, cpx, n_2, segment_ratios=r_2)))
            require(ctx, i, 'parts-set-point', parts, T_in, scale)
            ctx.count('steps with a segment in two parts')
        again = float(np.squeeze(nw.get_network_inlet_temperature(
            Q, T_w, m, cpx, n, **kw)))
        require(ctx, i, 'same-set-point', again, T_in, scale)
        pl.feedback(Q)
        return
    T_in = op['T'][0]
    Q = float(np.squeeze(nw.get_network_heat_extraction_rate(
        T_in, T_w, m, cpx, n, **kw)))
    back = float(np.squeeze(nw.get_network_inlet_temperature(
        Q, T_w, m, cpx, n, **kw)))
    scale = max(1., float(np.max(np.abs(T_in - T_b))))
    a_in = np.ravel(nw.coefficients_network_heat_extraction_rate(
        m, cpx, n, **kw)[0])
    eff = max(1., float(m_tot * cp / np.abs(a_in[0])))
    ctx.event(i, 'inlet', Q, back)
    ctx.count('steps with prescribed inlet')
    require(ctx, i, 'recovered-inlet', back, T_in, scale * eff)
    pl.feedback(Q)
