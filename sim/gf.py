"""g-function objects: descriptions, construction, plots.  Shared by C13, C14
and C16."""
import copy

import numpy as np

from . import kit, plots, tasks


def gen_spec(rng, disp=False):
    s = tasks.gen_gfunc_spec(rng, network=rng.random() < 0.45)
    nb = len(s['b'])
    if s['opt'].get('segment_ratios'):
        del s['opt']['segment_ratios']
    s['opt']['profiles'] = rng.random() < 0.75
    if rng.random() < 0.15 and s['method'] != 'equivalent':
        s['opt']['nSegments'] = [rng.choice([1, 2, 3]) for _ in range(nb)]
    elif rng.random() < 0.1:
        s['opt']['nSegments'] = 1
    if rng.random() < 0.2:
        s['opt']['linear_threshold'] = 3600. * rng.choice([1, 24])
    if 'pipes' in s:
        n_in = s['c'].count(-1)
        m = s['m']
        v = rng.random()
        if v < 0.3:
            s['mn'] = [round(m * rng.uniform(0.7, 1.4), 5)
                       for _ in range(rng.choice([1, 2, 3]))]
        elif v < 0.55 and s['method'] != 'equivalent':
            rows = rng.choice([0, 2])
            s['mb'] = [round(m / n_in * rng.uniform(0.8, 1.3), 5)
                       for _ in range(n_in)] if rows == 0 else \
                [[round(m / n_in * rng.uniform(0.8, 1.3), 5)
                  for _ in range(n_in)] for _ in range(rows)]
            if rows and rng.random() < 0.5:
                # the same flow rates in other circuits
                s['mb'][1] = s['mb'][0][1:] + s['mb'][0][:1]
        else:
            # the network knows its flow rate and heat capacity
            s['own'] = rng.choice([None, 'too', 'only'])
    if rng.random() < 0.25:
        s['opt'].update(gen_precision(rng))
        if rng.random() < 0.5:
            s['opt']['kind'] = rng.choice(['slinear', 'linear'])
    if rng.random() < 0.25:
        s['opt'].update(gen_terms(rng))
    if 'pipes' not in s and rng.random() < 0.25:
        s['form'] = rng.choice(['field', 'bare'])
    if 'pipes' not in s and rng.random() < 0.1 \
            and not isinstance(s['opt'].get('nSegments'), list):
        # a larger field
        b = s['b'][0]
        n = rng.choice([6, 9, 12])
        s['b'] = [dict(b, x=b['x'] + 6. * (i % 3), y=b['y'] + 6. * (i // 3))
                  for i in range(n)]
        if rng.random() < 0.3:
            s['b'][-1]['H'] = round(b['H'] * 0.8, 1)
    if rng.random() < 0.25:
        gen_ratios(rng, s)
    if disp:
        s['opt']['disp'] = True
    return s


def other_flows(rng, s):
    """The same field and network with other flow rates: often of the same
    total, or the same ones in another order."""
    v = {k: x for k, x in s.items() if k not in ('mn', 'mb', 'own')}
    n_in = s['c'].count(-1)
    r = rng.random()
    if 'mb' in s and r < 0.7:
        rows = s['mb'] if isinstance(s['mb'][0], list) else [s['mb']]
        k = rng.random()
        if k < 0.5:
            rows = [x[1:] + x[:1] for x in rows]
        elif k < 0.75:
            rows = rows[::-1]
        else:
            rows = [[round(sum(x) / len(x), 9)] * len(x) for x in rows]
        v['mb'] = rows if isinstance(s['mb'][0], list) or rng.random() < 0.2 \
            else rows[0]
    elif 'mn' in s and r < 0.7:
        v['mn'] = s['mn'][::-1] if rng.random() < 0.5 else \
            [x * 1.01 for x in s['mn']]
    elif s['method'] != 'equivalent' and n_in > 1 and r < 0.9:
        m = [round(s['m'] / n_in * rng.uniform(0.7, 1.3), 5)
             for _ in range(n_in - 1)]
        v['mb'] = m + [round(s['m'] - sum(m), 5)]
    else:
        v['m'] = s['m'] * rng.choice([1.001, 1.3])
    if rng.random() < 0.2:
        v['cp'] = s['cp'] * 1.02
    return v


def gen_precision(rng):
    """Options that set the accuracy of the values."""
    o = {}
    if rng.random() < 0.4:
        o['disTol'] = rng.choice([1e-4, 0.1])
    if rng.random() < 0.3:
        o['tol'] = rng.choice([1e-9, 0.1])
    if rng.random() < 0.3:
        o['dtype'] = 'single'
    return o


def gen_terms(rng):
    """Numbers of terms, points and groups."""
    o = {}
    if rng.random() < 0.5:
        o['nFLS'] = rng.choice([8, 12, 20])
    if rng.random() < 0.4:
        o['mQuad'] = rng.choice([7, 15])
    if rng.random() < 0.4:
        o['kClusters'] = rng.choice([0, 2, 3])
    return o


def option(k, x):
    if k == 'segment_ratios' and x is not None:
        return kit.arrays(x)
    return getattr(np, x) if k == 'dtype' else x


def gen_ratios(rng, s):
    """Given lengths of segments: the same for all boreholes, or not."""
    n = s['opt'].get('nSegments')
    nb = len(s['b'])
    if n is None:
        return
    if isinstance(n, list):
        s['opt']['segment_ratios'] = [kit.ratios(rng, k) for k in n]
    elif s['method'] == 'equivalent' or rng.random() < 0.6:
        s['opt']['segment_ratios'] = kit.ratios(rng, n)
    else:
        s['opt']['segment_ratios'] = [kit.ratios(rng, n) for _ in range(nb)]


def other_ratios(rng, r):
    if isinstance(r[0], list):
        return [other_ratios(rng, x) for x in r] if rng.random() < 0.5 \
            else r[1:] + r[:1] if len({len(x) for x in r}) == 1 else r
    return r[::-1] if rng.random() < 0.5 else r[1:] + r[:1]


def gen_times(rng, n=None):
    """Increasing times, sometimes below the linearisation threshold."""
    t = tasks.gen_times(rng, n)
    r = rng.random()
    if r < 0.2:
        t = sorted({kit.uni(rng, 5., 220., 1)
                    for _ in range(rng.choice([1, 2, 3]))}) + t
        if rng.random() < 0.25:
            t = [x for x in t if x < 220.]
    elif r < 0.25:
        t = t + [t[-1] * 1.5]
    return sorted(set(t))


def near_times(rng, t):
    """Times that resemble those of an earlier request."""
    k = rng.random()
    t = list(t)
    if k < 0.22 and len(t) > 2:
        # same number of times, same first and last
        i = rng.randrange(1, len(t) - 1)
        t[i] = t[i - 1] + (t[i + 1] - t[i - 1]) * rng.uniform(0.2, 0.8)
    elif k < 0.38:
        i = rng.randrange(len(t))
        t[i] *= 1. + rng.choice([1e-7, 1e-4, 0.03])
    elif k < 0.5 and len(t) > 1:
        del t[rng.randrange(len(t))]
    elif k < 0.6 and len(t) > 1:
        # same first time
        t = t[:1] + [x * 1.3 for x in t[1:]]
    elif k < 0.7 and len(t) > 1:
        # same last time
        t = [x * 0.7 for x in t[:-1]] + t[-1:]
    elif k < 0.8:
        t = t + [t[-1] * 1.7]
    elif k < 0.9:
        t = [x * 1.01 for x in t]
    return [float(x) for x in sorted(set(t))]


def held(field):
    """What callers hold of a bore field and its network: evaluations of
    g-functions leave it alone."""
    bs, net = field
    out = [bore(b) for b in bs]
    if net is None:
        return out
    out += [net.m_flow_network, net.cp_f, list(net.c), net.nBoreholes,
            net.H_tot, [id(b) for b in net.b],
            [id(q) for q in net.p], [bore(b) for b in net.b]]
    for q in net.p:
        out.append(id(q.b))
        for k in PIPE_STATE:
            v = getattr(q, k, None)
            out.append(v.tolist() if isinstance(v, np.ndarray) else v)
    return out


PIPE_STATE = ('k_s', 'k_g', 'r_in', 'r_out', 'R_fp', 'R_ff', 'J', 'nPipes',
              'nInlets', 'nOutlets', 'config', 'pos')


def build_field(world, s):
    """(boreholes, network or None)"""
    bs = [kit.make_borehole(world, b) for b in s['b']]
    if 'pipes' not in s:
        return bs, None
    pipes = [kit.make_pipe(world, p, borehole=b)
             for p, b in zip(s['pipes'], bs)]
    return bs, world.networks.Network(bs, pipes,
                                      bore_connectivity=list(s['c']),
                                      **own_flow(s))


def own_flow(s):
    """Flow conditions given to the network itself."""
    return {'m_flow_network': float(s['m']), 'cp_f': s['cp']} \
        if s.get('own') else {}


def build(world, s, field=None, time=None, opt=None):
    bs, net = field or build_field(world, s)
    kw = {}
    if net is not None and s['bc'] == 'MIFT':
        kw = {'cp_f': s['cp']}
        if s.get('own') == 'only':
            kw = {}
        elif 'mn' in s:
            kw['m_flow_network'] = np.array(s['mn'])
        elif 'mb' in s:
            kw['m_flow_borehole'] = np.array(s['mb'])
        else:
            kw['m_flow_network'] = float(s['m'])
    o = dict(s['opt'])
    o.update(opt or {})
    o = {k: option(k, x) for k, x in o.items()}
    field = list(bs)
    if net is not None and s['bc'] == 'MIFT':
        field = net
    elif s.get('form') == 'field':
        field = world.borefield.Borefield.from_boreholes(field)
    elif s.get('form') == 'bare' and len(bs) == 1:
        field = bs[0]
    return world.gfunction.gFunction(
        field,
        s['alpha'], time=None if time is None else np.array(time),
        method=s['method'], boundary_condition=s['bc'], options=o, **kw)


PLOTS = ('g_function', 'heat_extraction_rates',
         'heat_extraction_rate_profiles', 'temperatures',
         'temperature_profiles')


def gen_plot(rng, s, profiles=True):
    """A plot and the arguments it is asked with."""
    op = {'op': 'plot', 'what': rng.choice(PLOTS) if profiles
          else 'g_function', 'at': rng.choice([None, 0.3, 0.9])}
    nb = len(s['b'])
    if rng.random() < 0.3:
        op['which'] = rng.sample(range(nb), rng.randint(1, nb))
    if rng.random() < 0.3:
        op['tilt'] = False
    nm = len(s.get('mn') or s.get('mb') or [])
    if nm and rng.random() < 0.3:
        op['flows'] = [rng.randrange(nm) for _ in range(2)][:nm]
    return op


def plot(gf, what, time=None, op=()):
    f = getattr(gf, 'visualize_' + what)
    kw = {}
    if time is not None and what.endswith('profiles'):
        kw['time'] = time
    if what != 'g_function':
        if 'which' in op:
            kw['iBoreholes'] = list(op['which'])
        if 'tilt' in op:
            kw['showTilt'] = op['tilt']
        if 'flows' in op:
            kw['which'] = list(op['flows'])
    elif 'flows' in op:
        kw['which'] = [(op['flows'][0], op['flows'][-1])]
    given = copy.deepcopy(kw)
    out = plots.show(f, **kw)
    if kw != given:
        raise AssertionError(f'arguments changed to {kw}')
    return out


def stored(gf):
    """(time, values) held by the object, None if it holds none."""
    g = getattr(gf, 'gFunc', None)
    if g is None:
        return None
    return np.array(gf.time), np.array(g)


def bore(b):
    return (b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation)


def simplify(plan):
    s = plan['spec']
    if len(s['b']) > 1 and 'pipes' not in s:
        r = s['opt'].get('segment_ratios')
        if not isinstance(s['opt']['nSegments'], list) \
                and not (r and isinstance(r[0], list)):
            yield dict(plan, spec=dict(s, b=s['b'][:-1]))
    for k in ('approximate_FLS', 'linear_threshold', 'segment_ratios'):
        if k in s['opt']:
            yield dict(plan, spec=dict(s, opt={
                a: b for a, b in s['opt'].items() if a != k}))
    for i, op in enumerate(plan['ops']):
        if isinstance(op.get('t'), list) and len(op['t']) > 1:
            for j in range(len(op['t'])):
                ops = list(plan['ops'])
                ops[i] = dict(op, t=op['t'][:j] + op['t'][j + 1:])
                yield dict(plan, ops=ops)
