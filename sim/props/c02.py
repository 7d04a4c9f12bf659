"""C02  Answers of a network do not depend on its history."""
from .. import kit, netq, pipeq
from ..world import World

ID = 'C02'
RUNS = {'quick': 1300, 'thorough': 24000}
RULE = ('a run is one history of 6-200 operations on a network and on the '
        'pipes it is made of (near-miss queries, flow reversals, per-circuit '
        'and total flows, resistance updates of single pipes, queries '
        'addressed to a pipe or to a second network sharing the pipes, '
        'rejected calls, creeping ramps); non-trivial: a query compared '
        'after at least one such disturbance; distinct by event digest')
REAL = ['pygfunction.networks', 'pygfunction.pipes', 'pygfunction.boreholes',
        'pygfunction.gfunction (some runs)', 'numpy', 'scipy']
STUBS = ['process start (private re-execution of the package per world)']


def generate(rng, tier):
    plan = pingpong(rng, tier) if rng.random() < 0.45 else varied(rng, tier)
    # the caller fills the same arrays again for every call
    plan['refill'] = rng.random() < 0.35
    return plan


def pingpong(rng, tier):
    """A long history over a small pool of queries (see C01)."""
    net = netq.gen_network(rng, nmax=4)
    nb = len(net['pipes'])
    args = [netq.gen_args(rng, net)]
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.5:
            args.append(dict(args[0], m=netq.neg(args[0]['m'])))
        else:
            args.append(netq.near(rng, net, args[0])[0])
    methods = rng.sample(netq.METHODS, rng.randint(3, 7))
    pool = [netq.gen_query(rng, net, a, [f]) for f in methods for a in args]
    if rng.random() < 0.4:
        i = rng.randrange(nb)
        p = net['pipes'][i]
        a = pipeq.gen_args(rng, p)
        pool += [dict(pipeq.gen_query(rng, p, a), i=i) for _ in range(3)]
    ops = [{'op': 'use', 'k': rng.randrange(len(pool))}
           for _ in range(rng.randint(40, 200 if tier == 'thorough'
                                      else 120))]
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(nb)
            ops.insert(rng.randrange(len(ops)), {
                'op': 'update', 'i': i,
                'u': kit.gen_update(rng, net['pipes'][i])})
    return {'net': net, 'second': None, 'pool': pool, 'ops': ops}


def varied(rng, tier):
    net = netq.gen_network(rng)
    nb = len(net['pipes'])
    ops = []
    pool = [netq.gen_args(rng, net)]
    methods = netq.METHODS
    if rng.random() < 0.5:
        methods = rng.sample(netq.METHODS, rng.randint(1, 4))
    second = netq.gen_connectivity(rng, nb) if rng.random() < 0.3 else None
    cur = net
    gf = rng.random() < 0.03
    for _ in range(rng.randint(6, 30 if tier == 'thorough' else 22)):
        r = rng.random()
        if r < 0.10:
            i = rng.randrange(nb)
            u = kit.gen_update(rng, cur['pipes'][i])
            cur = netq.with_update(cur, i, u)
            ops.append({'op': 'update', 'i': i, 'u': u})
            continue
        if r < 0.18:
            i = rng.randrange(nb)
            p = cur['pipes'][i]
            ops.append({'op': 'pipe', 'i': i, 'q': pipeq.gen_query(
                rng, p, pipeq.gen_args(rng, p))})
            continue
        if r < 0.22:
            ops.append({'op': 'bad',
                        'how': rng.choice(['m_len', 'sign', 'n_len',
                                           'ratio_len', 'cp_len', 'ratio_type',
                                           'ratio_row', 'ratio_drop',
                                           'ratio_drop']),
                        'q': netq.gen_query(rng, cur, pool[-1], methods)})
            if rng.random() < 0.6:
                q = ops[-1]['q']
                # the call it was mistaken for, before or after
                ops.insert(len(ops) - rng.randrange(2),
                           {'op': 'query', 'rel': 'same', 'q': q})
            continue
        if r < 0.25:
            ops.append({'op': 'ramp', 'k': rng.choice([30, 120]),
                        'what': rng.choice(['m', 'cp', 'ratio']),
                        'q': netq.gen_query(rng, cur, pool[-1], methods)})
            continue
        if gf and r < 0.30:
            gf = False
            ops.append({'op': 'gfunc', 'bc': rng.choice(
                ['MIFT', 'UHTR']), 'm': abs(kit.flow_scale(
                    cur['pipes'][0])) * nb * 1.3})
            continue
        if r < 0.5 and len(pool) > 1:
            a, rel = rng.choice(pool), 'recall'
        else:
            a, rel = netq.near(rng, cur, rng.choice(pool[-2:]))
            pool = (pool + [a])[-6:]
        op = {'op': 'query', 'rel': rel,
              'q': netq.gen_query(rng, cur, a, methods)}
        if second and rng.random() < 0.3:
            n_in = second.count(-1)
            q = dict(op['q'])
            if isinstance(q['m'], list):
                q['m'] = (q['m'] * n_in)[:n_in]
            op = dict(op, q=q, on2=True)
        ops.append(op)
    return {'net': net, 'second': second, 'ops': ops}


def spoil(q, how, nb, n_in):
    q = dict(q)
    m = q['m'] if isinstance(q['m'], list) else [q['m'] / n_in] * n_in
    if how == 'm_len':
        q['m'] = list(m) + [m[0]] * 2
    elif how == 'sign':
        q['m'] = [m[0]] + [-x for x in m[1:]] if n_in > 1 else [m[0], -m[0]]
    elif how == 'n_len':
        q['n'] = [2] * (nb + 2)
    elif how == 'cp_len':
        q['cp_list'] = True
        q['cp_n'] = None
    elif how == 'ratio_len':
        q['ratios'] = [[0.5, 0.5]] * (nb + 1)
    elif how == 'ratio_drop':
        r = q['ratios']
        q['ratios'] = r[:-1] if r and isinstance(r[0], list) and nb > 1 \
            else [[0.5, 0.5]] * (nb + 1)
    elif how == 'ratio_row':
        q['ratios'] = [[0.5, 0.2, 0.1, 0.1, 0.1]] * nb
    elif how == 'ratio_type':
        q['ratio_str'] = True
    return q


def ramped(q, k, what):
    f = (1. + 0.9e-6) ** k
    q = dict(q)
    if what == 'm':
        q['m'] = netq.scale(q['m'], f)
    elif what == 'cp':
        q['cp'] *= f
    elif q['ratios']:
        r = q['ratios']
        rows = [list(x) for x in r] if isinstance(r[0], list) else [list(r)]
        for row in rows:
            if len(row) > 1:
                d = row[0] * (f - 1.)
                row[0] += d
                row[-1] -= d
        q['ratios'] = rows if isinstance(r[0], list) else rows[0]
    return q


def execute(plan, ctx):
    net = plan['net']
    nb = len(net['pipes'])
    w = World()
    network = netq.make_network(w, net)
    buf = kit.Buffers(plan.get('refill', False))
    second = None
    net2 = None
    if plan.get('second'):
        net2 = dict(net, c=plan['second'])
        second = netq.make_network(w, net2, pipes=network.p)
    disturbed = False
    version = 0
    memo = {}
    for i, op in enumerate(plan['ops']):
        k = op['op']
        ctx.sim_time += 3600.
        if k == 'update':
            j = op['i']
            kit.apply_update(network.p[j], net['pipes'][j], op['u'])
            net = netq.with_update(net, j, op['u'])
            if net2:
                net2 = dict(net, c=net2['c'])
            version += 1
            ctx.event(i, 'update', j, op['u'])
            ctx.count('resistance updates')
            ctx.state('update')
            disturbed = True
            continue
        if k == 'use':
            q = plan['pool'][op['k']]
            key = (version, op['k'])
            j = q.get('i')
            if j is None:
                got = netq.run(w, network, q, buf)
            else:
                got = pipeq.run(w, network.p[j], q, buf)
            if key not in memo:
                memo[key] = netq.fresh_answer(World, net, q) if j is None \
                    else pipeq.fresh_answer(World, net['pipes'][j], q)
            ctx.event(i, op['k'], repr(got) if isinstance(got, kit.Raised)
                      else kit.frozen(got))
            ctx.count('queries compared')
            ctx.nontrivial = ctx.nontrivial or i > 3
            m = q['m'][0] if isinstance(q['m'], list) else q['m']
            ctx.state(q['f'], j is None, m < 0)
            netq.compare(ctx, got, memo[key], 'history-dependent-answer',
                         f'op {i} {q["f"]}'
                         + ('' if j is None else f' of pipe {j}'))
            continue
        if k == 'pipe':
            j = op['i']
            got = pipeq.run(w, network.p[j], op['q'], buf)
            want = pipeq.fresh_answer(World, net['pipes'][j], op['q'])
            ctx.event(i, 'pipe', j, op['q']['f'], kit.frozen(got))
            ctx.count('queries addressed to a pipe of the network')
            ctx.state('pipe', op['q']['f'])
            pipeq.compare(ctx, got, want, 'history-dependent-answer',
                          f'op {i} pipe {j} {op["q"]["f"]}')
            disturbed = True
            continue
        if k == 'bad':
            q = spoil(op['q'], op['how'], nb, netq.n_inlets(net))
            args, kw = netq.build(q)
            if q.get('cp_list'):
                import numpy as np
                args = tuple(np.array([4000., 3000., 2000.]) if x is q['cp']
                             else x for x in args)
            if q.get('ratio_str') and 'segment_ratios' in kw:
                kw['segment_ratios'] = 'equal'
            out = kit.call(netq.invoke, w, network, q, args, kw)
            if isinstance(out, kit.Raised):
                ctx.fault('rejected call')
            wf = World()
            ref = kit.call(netq.invoke, wf, netq.make_network(wf, net), q,
                           args, kw)
            wf.close()
            ctx.check(isinstance(out, kit.Raised)
                      or not isinstance(ref, kit.Raised),
                      'invalid-call-accepted',
                      lambda: f'op {i} {op["how"]} {q["f"]}: a new object '
                      f'rejects it ({ref!r})')
            ctx.event(i, 'bad', op['how'], isinstance(out, kit.Raised))
            ctx.state('bad', op['how'])
            disturbed = True
            continue
        if k == 'gfunc':
            out = kit.call(use_in_gfunction, w, network, op)
            ctx.event(i, 'gfunc', kit.frozen(out)
                      if not isinstance(out, kit.Raised) else repr(out))
            ctx.count('uses in a g-function')
            ctx.state('gfunc')
            disturbed = True
            continue
        q = op['q']
        obj, spec = (second, net2) if op.get('on2') and second is not None \
            else (network, net)
        if k == 'ramp':
            for j in range(op['k']):
                netq.run(w, obj, ramped(q, j, op['what']), buf)
            q = ramped(q, op['k'], op['what'])
            ctx.count('creeping ramps')
            disturbed = True
        got = netq.run(w, obj, q, buf)
        want = netq.fresh_answer(World, spec, q)
        ctx.event(i, k, q['f'], kit.frozen(got)
                  if not isinstance(got, kit.Raised) else repr(got))
        ctx.count('queries compared')
        if obj is second:
            ctx.count('queries addressed to a second network')
        m = q['m']
        if (m[0] if isinstance(m, list) else m) < 0:
            ctx.count('queries with reversed flow')
        ctx.nontrivial = ctx.nontrivial or disturbed
        rel = op.get('rel', k)
        if rel == 'reverse':
            disturbed = True
        ctx.state(q['f'], rel, obj is second)
        netq.compare(ctx, got, want, 'history-dependent-answer',
                     f'op {i} {q["f"]}')
    if buf.refilled:
        ctx.count('argument arrays filled again', buf.refilled)
    w.close()


def use_in_gfunction(w, network, op):
    gf = w.gfunction.gFunction(
        network, 1e-6, time=[3.6e5, 3.6e7], boundary_condition=op['bc'],
        m_flow_network=op['m'], cp_f=4000., method='similarities',
        options={'nSegments': 3})
    return gf.gFunc


def simplify(plan):
    if plan.get('refill'):
        yield dict(plan, refill=False)
    if plan.get('second'):
        yield dict(plan, second=None)
    for i, op in enumerate(plan['ops']):
        q = op.get('q')
        if q is None:
            continue
        if op['op'] == 'ramp' and op['k'] > 30:
            yield _rep(plan, i, dict(op, k=30))
        if q['ratios'] is not None:
            yield _rep(plan, i, dict(op, q=dict(q, ratios=None)))


def _rep(plan, i, op):
    ops = list(plan['ops'])
    ops[i] = op
    return dict(plan, ops=ops)
