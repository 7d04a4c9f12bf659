"""C13  A g-function evaluation is independent of earlier evaluations."""
import numpy as np

from .. import faults, gf, kit, netq
from ..world import World

ID = 'C13'
RUNS = {'quick': 1500, 'thorough': 20000}
RULE = ('a run is one history of 2-8 operations on a g-function object '
        '(evaluations at different times, plots, rejected and interrupted '
        'evaluations, queries to the shared network, other g-functions on '
        'the same boreholes); every evaluation and plot is compared with '
        'those of a new object in a new process; non-trivial: an evaluation '
        'or plot compared after another operation; distinct by event digest')
REAL = ['pygfunction.gfunction', 'pygfunction.solvers',
        'pygfunction.networks', 'pygfunction.pipes',
        'pygfunction.heat_transfer', 'numpy', 'scipy', 'matplotlib (curves)']
STUBS = ['layout of figures', 'delivery of interrupts',
         'failing numpy routines',
         'process start (private re-execution of the package per world)']
STATE_MEASURE = ('pairs of successive (operation, solver, boundary '
                 'condition, several mass flow rates)')
ASSUMPTIONS = ['adaptive quadrature makes a value depend on the later times '
               'of the same request by less than 1e-4']
simplify = gf.simplify


def generate(rng, tier):
    s = gf.gen_spec(rng)
    ops = []
    if rng.random() < 0.3:
        ops.append({'op': 'new', 't': gf.gen_times(rng)})
    times = None
    for _ in range(rng.randint(2, 8 if tier == 'thorough' else 6)):
        r = rng.random()
        if r < 0.48 or times is None:
            t = gf.gen_times(rng)
            if times and rng.random() < 0.6:
                t = gf.near_times(rng, times)
            elif times is None and rng.random() < 0.7:
                t = gf.gen_times(rng, rng.choice([2, 3, 4]))
            times = t
            ops.append({'op': 'eval', 't': t,
                        'prefix': rng.random() < 0.3,
                        'how': rng.choice(['array', 'array', 'list',
                                           'scalar'])
                        if len(t) == 1 else 'array'})
        elif r < 0.6:
            ops.append(gf.gen_plot(rng, s, s['opt']['profiles']))
        elif r < 0.68:
            ops.append({'op': 'bad', 't': rng.choice(
                [[1e8, 1e6], [1e8, 1e6, 1e9], 'noon', [[1e6], [1e5]]])})
        elif r < 0.8:
            t = gf.near_times(rng, times) if rng.random() < 0.5 \
                else gf.gen_times(rng)
            ops.append({'op': 'fault', 't': t,
                        'fault': faults.gen(rng, 600, 60)})
        elif 'pipes' in s and s['bc'] == 'MIFT' and rng.random() < 0.5:
            v = gf.other_flows(rng, s)
            ops.append({'op': 'flows', 't': gf.gen_times(rng, 2),
                        'v': {k: v[k] for k in ('mn', 'mb', 'm', 'cp')
                              if k in v}})
        elif r < 0.86 and 'pipes' in s:
            net = {'pipes': s['pipes'], 'c': s['c']}
            ops.append({'op': 'net', 'q': netq.gen_query(
                rng, net, netq.gen_args(rng, net))})
        elif r < 0.91:
            op = {'op': 'legacy', 't': gf.gen_times(rng, 2),
                  'which': rng.choice(
                      ['mixed', 'equal', 'uhtr', 'ubwt'] if 'pipes' in s
                      else ['uhtr', 'ubwt']),
                  'sim': rng.choice([None, True, False]),
                  'n': rng.choice([None, 1, 2, 3]),
                  'uniform': rng.random() < 0.5,
                  'opt': gf.gen_precision(rng)}
            if rng.random() < 0.6:
                # (a spline needs as many points as its order, and one)
                op['opt']['kind'] = rng.choice(['cubic', 'quadratic',
                                                'linear'])
                op['t'] = [x * 1e6 for x in sorted(
                    {kit.uni(rng, 1., 300., 2) for _ in range(5)})]
                if len(op['t']) < 4:
                    op['opt']['kind'] = 'linear'
            ops.append(op)
        else:
            o = {'nSegments': rng.choice([1, 2, 5])}
            if rng.random() < 0.5:
                o['segment_ratios'] = None
            r = s['opt'].get('segment_ratios')
            if r and rng.random() < 0.6:
                o = {'nSegments': s['opt']['nSegments'],
                     'segment_ratios': gf.other_ratios(rng, r)}
            ops.append({'op': 'other', 't': gf.gen_times(rng, 2), 'opt': o,
                        'method': rng.choice(['similarities', 'detailed',
                                              'equivalent'])})
    return {'spec': s, 'ops': ops}


def fresh(s, t):
    w = World()
    g = gf.build(w, s)
    g.evaluate_g_function(np.array(t))
    return w, g


def execute(plan, ctx):
    s = plan['spec']
    w = World()
    field = gf.build_field(w, s)
    holes = gf.held(field)
    key = (s['method'], s['bc'], 'mn' in s or 'mb' in s)
    g = None
    times = None
    for i, op in enumerate(plan['ops']):
        ctx.state(op['op'], *key)
        ctx.sim_time += 1.
        k = op['op']
        if k == 'new' or g is None:
            t = op['t'] if k == 'new' else None
            g = gf.build(w, s, field, t)
            if t is not None:
                check_eval(ctx, s, i, g, np.array(g.gFunc), t, False)
                times = t
        if k == 'eval':
            t = np.array(op['t'])
            x = t if op['how'] == 'array' else list(t) \
                if op['how'] == 'list' else float(t[0])
            y = g.evaluate_g_function(x)
            ctx.event(i, 'eval', y)
            check_eval(ctx, s, i, g, y, op['t'], op['prefix'])
            times = op['t']
            ctx.nontrivial = ctx.nontrivial or i > 0
        elif k == 'plot' and times is not None:
            at = None
            if op['at'] is not None:
                at = times[0] + op['at'] * (times[-1] - times[0])
                if op['what'] == 'temperature_profiles' and len(times) < 2:
                    at = None
                if len(times) < 2:
                    at = None
            got = kit.call(gf.plot, g, op['what'], at, op)
            wf, h = fresh(s, times)
            want = kit.call(gf.plot, h, op['what'], at, op)
            wf.close()
            ctx.count('plots compared')
            ctx.nontrivial = True
            if isinstance(got, kit.Raised):
                ctx.event(i, 'plot', repr(got))
                d = repr(got) if not isinstance(want, kit.Raised) else None
            else:
                ctx.event(i, 'plot', *got)
                d = repr(want) if isinstance(want, kit.Raised) else \
                    kit.differs(got, want)
            ctx.check(d is None, 'plot', lambda: f'op {i}: plot of '
                      f'{op["what"]} differs from that of a new object: {d}')
        elif k == 'bad':
            t = op['t'] if isinstance(op['t'], str) else np.array(op['t'])
            before = gf.stored(g)
            out = kit.call(g.evaluate_g_function, t)
            if isinstance(out, kit.Raised):
                ctx.fault('rejected times')
                after = gf.stored(g)
                same = (before is None) == (after is None) and (
                    before is None or all(
                        np.array_equal(a, b)
                        for a, b in zip(before, after)))
                ctx.check(same, 'rejected-evaluation', lambda: f'op {i}: '
                          'times or values changed by a rejected evaluation')
            else:
                g = gf.build(w, s, field)
                times = None
        elif k == 'fault':
            inj = faults.make(op['fault'])
            with inj:
                out = kit.call(g.evaluate_g_function, np.array(op['t']))
            ctx.event(i, 'fault', inj.fired)
            if inj.fired:
                ctx.fault(faults.name(op['fault']))
                ctx.state('fault', getattr(inj, 'where', None), *key)
            now = gf.stored(g)
            if now is None:
                times = None
            else:
                times = [float(x) for x in now[0]]
                check_eval(ctx, s, i, g, now[1], times, False)
        elif k == 'net' and field[1] is not None:
            out = netq.run(w, field[1], op['q'])
            ctx.event(i, 'net')
        elif k == 'legacy':
            y, v = legacy(w, s, field, op)
            wf, h = fresh(v, op['t'])
            want = np.array(h.gFunc)
            wf.close()
            d = kit.differs(y, want, rtol=1e-7)
            ctx.event(i, 'legacy', y)
            ctx.count('deprecated functions compared')
            ctx.check(d is None, 'deprecated-function', lambda: f'op {i}: '
                      f'{op["which"]}: {d} from the values of a new object')
        elif k == 'flows':
            v = dict({a: b for a, b in s.items()
                      if a not in ('mn', 'mb', 'own')}, **op['v'])
            o = gf.build(w, v, field, op['t'])
            check_eval(ctx, v, i, o, np.array(o.gFunc), op['t'], False)
            ctx.count('other flow rates in the same network')
        elif k == 'other':
            v = dict(s, opt=op['opt'], method=op['method'])
            if any(b.get('tilt') for b in s['b']) \
                    and op['method'] == 'equivalent':
                v['method'] = 'detailed'
            if v['method'] == 'equivalent' and (
                    'mb' in v or isinstance(op['opt']['nSegments'], list) or
                    np.ndim(op['opt'].get('segment_ratios')) == 2):
                v['method'] = 'detailed'
            if v['bc'] != 'MIFT':
                v['bc'] = 'UBWT' if len(op['t']) % 2 else 'UHTR'
            o = gf.build(w, v, field, op['t'])
            check_eval(ctx, v, i, o, np.array(o.gFunc), op['t'], False)
            ctx.count('other g-functions on the same boreholes')
        ctx.check(gf.held(field) == holes, 'boreholes-changed', lambda: f'op '
                  f'{i} ({k}) changed the boreholes or the network')
    w.close()


def legacy(w, s, field, op):
    """Answer of a deprecated function on the shared boreholes and network,
    and the description of the same g-function."""
    opt, kw = {}, {}
    if op['sim'] is not None:
        kw['use_similarities'] = op['sim']
    for k, x in op['opt'].items():
        if op['which'] != 'uhtr' or k != 'kind':
            opt[k] = x
            kw[k] = gf.option(k, x)
    if op['which'] == 'uhtr':
        opt['nSegments'] = 1
    else:
        # (the functions have a default of their own)
        opt['nSegments'] = op['n'] or 8
        if op['n'] is not None:
            kw['nSegments'] = op['n']
        if op['uniform']:
            opt['segment_ratios'] = kw['segment_ratios'] = None
    v = dict(s, opt=opt,
             method='detailed' if op['sim'] is False else 'similarities')
    for k in ('mn', 'mb', 'own'):
        v.pop(k, None)
    G, t = w.gfunction, np.array(op['t'])
    bs, net = field
    if op['which'] == 'uhtr':
        v['bc'] = 'UHTR'
        y = G.uniform_heat_extraction(list(bs), t, s['alpha'], **kw)
    elif op['which'] == 'ubwt':
        v['bc'] = 'UBWT'
        y = G.uniform_temperature(list(bs), t, s['alpha'], **kw)
    elif op['which'] == 'equal':
        v['c'] = [-1] * len(bs)
        y = G.equal_inlet_temperature(
            list(bs), list(net.p), s['m'] / len(bs), s['cp'], t, s['alpha'],
            **kw)
    else:
        v['m'] = s['m'] * 1.1
        v['cp'] = s['cp'] * 1.05
        y = G.mixed_inlet_temperature(net, v['m'], v['cp'], t, s['alpha'],
                                      **kw)
    return np.array(y), v


def check_eval(ctx, s, i, g, y, t, prefix):
    w, h = fresh(s, t)
    want = np.array(h.gFunc)
    w.close()
    ctx.count('evaluations compared')
    d = kit.differs(y, want, rtol=1e-7)
    ctx.check(d is None, 'values', lambda: f'op {i}: g-function at {t}: {d} '
              'from that of a new object')
    st = gf.stored(g)
    ctx.check(st is not None and np.array_equal(st[0], np.array(t)),
              'stored-times', lambda: f'op {i}: evaluated at {t}, the object '
              f'holds times {None if st is None else st[0]}')
    d = kit.differs(st[1], want, rtol=1e-7)
    ctx.check(d is None, 'stored-values', lambda: f'op {i}: stored values '
              f'for times {t}: {d}')
    ctx.check(bool(np.all(np.isfinite(y))), 'finite', lambda: f'op {i}: '
              f'g-function {y}')
    if prefix and len(t) > 1:
        w, h = fresh(s, t[:-1])
        short = np.array(h.gFunc)
        w.close()
        d = kit.differs(y[..., :-1], short, rtol=1e-4)
        ctx.count('prefixes compared')
        ctx.check(d is None, 'later-times', lambda: f'op {i}: values at '
                  f'{t[:-1]} {d} when {t[-1]} is requested too')
