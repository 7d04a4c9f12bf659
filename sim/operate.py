"""Operating histories: a plant simulator drives one pipe or one network step
by step (inlet temperature or prescribed heat, wall temperatures that react to
the heat extracted, flow rates, reversals, change of fluid, resistance
updates, disturbances and faults).  Shared by C07 and C08."""
import itertools

import numpy as np

from . import faults, kit, netq, pipeq
from .world import World


def gen_history(rng, tier, control):
    net = rng.random() < 0.55
    if net:
        spec = netq.gen_network(rng, nmax=6)
        a = netq.gen_args(rng, spec)
    else:
        spec = kit.gen_pipe(rng)
        a = pipeq.gen_args(rng, spec)
    mq = netq if net else pipeq
    pool = [a]
    ops = []
    cur = spec
    for _ in range(rng.randint(3, 14 if tier == 'quick' else 24)):
        r = rng.random()
        if r < 0.1:
            i = rng.randrange(len(cur['pipes'])) if net else 0
            u = kit.gen_update(rng, cur['pipes'][i] if net else cur)
            cur = netq.with_update(cur, i, u) if net \
                else kit.with_resistances(cur, u)
            ops.append({'op': 'update', 'i': i, 'u': u})
            continue
        if rng.random() < 0.3 and len(pool) > 1:
            a = rng.choice(pool)
        else:
            a = mq.near(rng, cur, pool[-1])[0]
            if net and not moderate(cur, a):
                a = mq.gen_args(rng, cur)
            pool = (pool + [a])[-4:]
        if r < 0.2:
            ops.append({'op': 'disturb', 'q': mq.gen_query(rng, cur, a),
                        'fault': faults.gen(rng, 300, 40)
                        if rng.random() < 0.6 else None})
            continue
        nb = len(cur['pipes']) if net else 1
        ns = a['n'] if isinstance(a['n'], list) else [a['n']] * nb
        n_in = 1 if net else kit.n_inlets(cur)
        op = {'op': 'step', 'a': a,
              'T_b': [kit.uni(rng, 2., 14., 3) for _ in range(sum(ns))],
              'order': rng.randrange(10 ** 6)}
        if rng.random() < 0.3:
            # one segment in two parts (at the same wall temperature)
            op['split'] = [rng.randrange(sum(ns)),
                           kit.uni(rng, 0.1, 0.9, 2)]
        x = rng.random()
        if control and x < 0.6:
            lo, hi = rng.choice([(500., 9000.), (-9000., -500.),
                                 (-200., 200.)])
            op['Q'] = [kit.uni(rng, lo, hi, 1) * (nb if net else 1)
                       for _ in range(n_in)]
            if rng.random() < 0.08:
                op['Q'] = [0.] * n_in             # the pump runs alone
        elif not control and x < 0.12:
            op['iso'] = kit.uni(rng, 1., 20., 3)
            op['scalar'] = rng.random() < 0.5
        else:
            op['T'] = [kit.uni(rng, -5., 45., 3) for _ in range(n_in)]
        if 'iso' not in op and rng.random() < 0.15:
            # walls at one temperature, given as a number
            op['T_b'] = [op['T_b'][0]] * len(op['T_b'])
            op['scalar'] = True
        ops.append(op)
    return {'net': net, 'spec': spec, 'ops': ops}


def moderate(net, a):
    """Whether the flow through every borehole keeps the number of transfer
    units at a level at which the balances can be resolved."""
    m0 = max(kit.flow_scale(p) for p in net['pipes'])
    return min(abs(flows(net, a['m'])[0])) * a['cp'] > 0.4 * m0 * 3500.


def flows(net, m):
    """Mass flow rate in every borehole of a network, and the upstream
    borehole of each one (-1: the network inlet)."""
    c = net['c']
    nb = len(c)
    inlets = [i for i in range(nb) if c[i] == -1]
    mk = list(m) if isinstance(m, list) else [m / len(inlets)] * len(inlets)
    head = []
    for i in range(nb):
        j = i
        while c[j] != -1:
            j = c[j]
        head.append(inlets.index(j))
    mb = [mk[h] for h in head]
    rev = any(x < 0 for x in mk)
    if rev:
        up = [-1] * nb
        for i in range(nb):
            if c[i] != -1:
                up[c[i]] = i
    else:
        up = list(c)
    last = [i for i in range(nb) if i not in up]
    return np.array(mb), up, last


class Plant:
    """Runs the history; `step(self, i, op)` is supplied by the property."""

    def __init__(self, plan, ctx, step):
        self.plan, self.ctx = plan, ctx
        self.net = plan['net']
        self.cur = plan['spec']
        self.w = World()
        self.obj = netq.make_network(self.w, self.cur) if self.net \
            else kit.make_pipe(self.w, self.cur)
        self.drift = 0.
        self.H = sum(p['b']['H'] for p in self.pipes())
        prev = None
        for i, op in enumerate(plan['ops']):
            ctx.sim_time += 3600.
            k = op['op']
            if k == 'update':
                j = op['i']
                pipe = self.obj.p[j] if self.net else self.obj
                kit.apply_update(pipe, self.pipes()[j], op['u'])
                self.cur = netq.with_update(self.cur, j, op['u']) \
                    if self.net else kit.with_resistances(self.cur, op['u'])
                ctx.count('resistance updates')
                ctx.event(i, 'update')
            elif k == 'disturb':
                mq = netq if self.net else pipeq
                inj = faults.make(op['fault'])
                with inj:
                    out = mq.run(self.w, self.obj, op['q'])
                if inj.fired:
                    ctx.fault(faults.name(op['fault']))
                    ctx.state('fault', getattr(inj, 'where', None))
                ctx.event(i, 'disturb', inj.fired)
            else:
                rev = first(op['a']['m']) < 0
                if prev is not None and rev != prev:
                    ctx.count('flow reversals')
                prev = rev
                if i:
                    ctx.nontrivial = True
                ctx.count('steps')
                ctx.state(self.net, self.kind(), rev, len(self.pipes()),
                          'iso' in op, 'Q' in op)
                step(self, i, op)
        self.w.close()

    def kind(self):
        return self.cur['pipes'][0]['kind'] if self.net else self.cur['kind']

    def pipes(self):
        return self.cur['pipes'] if self.net else [self.cur]

    def T_b(self, op):
        return np.array(op['T_b']) + self.drift

    def feedback(self, Q):
        """Walls cool down when heat is extracted."""
        q = float(np.sum(Q)) / self.H
        self.drift = max(-8., min(8., 0.7 * self.drift - 0.01 * q))


def first(m):
    return m[0] if isinstance(m, list) else m


def order(op, names):
    """Order of the evaluations of a step, decided by the plan."""
    import random
    names = list(names)
    random.Random(op['order']).shuffle(names)
    return names


def edges(H, n, ratios):
    r = np.full(n, 1. / n) if ratios is None else np.array(ratios)
    return np.concatenate(([0.], np.cumsum(r))) * H


def split_segment(op, T_b, ns, ratios):
    """The same walls with one segment in two parts: wall temperatures,
    numbers of segments, ratios (of every borehole) and the segment."""
    k, f = op['split']
    e = np.cumsum([0] + list(ns))
    j = int(np.searchsorted(e, k, side='right')) - 1
    rows = []
    for i, n in enumerate(ns):
        r = np.full(n, 1. / n) if ratios is None else np.array(ratios[i])
        if i == j:
            x = r[k - e[i]]
            r = np.concatenate((r[:k - e[i]], [f * x, (1. - f) * x],
                                r[k - e[i] + 1:]))
        rows.append(r)
    return (np.insert(T_b, k, T_b[k]), [len(r) for r in rows], rows, k)


def joined(x, k):
    """Heat extraction rates with parts k and k + 1 put together."""
    x = np.ravel(x)
    return np.concatenate((x[:k], [x[k] + x[k + 1]], x[k + 2:]))


def sum_by_borehole(x, ns):
    i = np.cumsum([0] + list(ns))
    return np.array([np.sum(x[a:b]) for a, b in zip(i[:-1], i[1:])])


def sign_combinations(n):
    return itertools.product((1., -1.), repeat=n)


def simplify(plan):
    if plan['net']:
        return
    b = plan['spec']['b']
    if b.get('tilt'):
        yield dict(plan, spec=dict(plan['spec'], b={
            k: v for k, v in b.items() if k not in ('tilt', 'orientation')}))
