"""C18  A coupled simulation of a whole system follows one trajectory."""
import copy

import numpy as np

from .. import faults, kit, netq, operate, pipeq, tasks
from ..world import World

ID = 'C18'
RUNS = {'quick': 1600, 'thorough': 20000}
RULE = ('a run is one coupled simulation of 3-8 time steps (up to 16 in the '
        'thorough tier) of one or two ground-source systems in one process: '
        'line source response factors, load aggregation, network of pipes, '
        'controlled heat or inlet temperature, a fixed number of iterations '
        'per step; disturbed by interrupted and retried calls, rejected '
        'calls, inspections, what-if steps on copies, checkpoints, crashes '
        'with restart, forks and overwritten results; the trajectory must be '
        'that of the same simulation in which every step is made with newly '
        'built objects; non-trivial: a step compared after a disturbance or '
        'after another step; distinct by event digest')
REAL = ['pygfunction.load_aggregation', 'pygfunction.networks',
        'pygfunction.pipes', 'pygfunction.boreholes',
        'pygfunction.heat_transfer', 'pygfunction.gfunction', 'numpy',
        'scipy']
STUBS = ['the heat pumps (prescribed loads, set points, flows)',
         'process start and crash (private re-execution of the package per '
         'world, pickled checkpoints)', 'delivery of interrupts',
         'failing numpy routines']
STATE_MEASURE = ('pairs of successive (disturbance or step, aggregation '
                 'scheme, several sources, control, direction of flow, '
                 'number of boreholes)')
ASSUMPTIONS = ['a time step that has been started is completed by retrying '
               'calls, or repeated from a checkpoint',
               'iterations are under-relaxed, so that rounding is not '
               'amplified']
RTOL = 2e-4
K_S = 2.
ALPHA = 1e-6


# ---------------------------------------------------------------------------
# plans

def gen_system(rng, n):
    net = netq.gen_network(rng, nmax=4)
    nb = len(net['pipes'])
    multi = nb > 1 and rng.random() < 0.6
    s = tasks.gen_agg_spec(rng, n + 2, ns=nb if multi else 1)
    s['shape'] = 'smooth'
    s['dt'] = 3600.
    # response factors come from line sources, or from a g-function
    s['g'] = 'fls' if multi else rng.choice(['gf', 'fls'])
    a = netq.gen_args(rng, net)
    while not operate.moderate(net, a):
        a = netq.gen_args(rng, net)
    steps = []
    cur = net
    pool = [a]
    for _ in range(n):
        u = None
        if rng.random() < 0.12:
            i = rng.randrange(nb)
            u = [i, kit.gen_update(rng, cur['pipes'][i])]
            cur = netq.with_update(cur, *u)
        if rng.random() < 0.3:
            a = rng.choice(pool)
        elif rng.random() < 0.7:
            b = netq.near(rng, cur, a)[0]
            if operate.moderate(cur, b):
                a = b
        pool = (pool + [a])[-3:]
        st = {'a': a, 'iters': rng.choice([1, 2, 3]), 'u': u}
        if u and rng.random() < 0.5:
            st['uf'] = faults.gen(rng, 80, 8)
        if rng.random() < 0.6:
            st['Q'] = kit.uni(rng, -4000., 6000., 1) * nb
        else:
            st['T'] = kit.uni(rng, -3., 30., 2)
        steps.append(st)
    return {'net': net, 'agg': s, 'T_g': kit.uni(rng, 5., 15., 1),
            'steps': steps, 'refill': rng.choice([None, None, None, 'refill',
                                               'wipe'])}


def recombine(rng, t):
    """The same circuits made of other boreholes: as many of them, with the
    same flow rates."""
    c, nb = t['net']['c'], len(t['net']['c'])
    for _ in range(20):
        d = netq.gen_connectivity(rng, nb)
        if d != c and d.count(-1) == c.count(-1):
            new = dict(t['net'], c=d)
            if all(operate.moderate(new, st['a']) for st in t['steps']):
                t['net'] = new
                return


def gen_event(rng, sy, k):
    st = sy['steps'][k]
    e = {'at': rng.randrange(12)}
    r = rng.random()
    if r < 0.4:
        e.update(k='fault', f=faults.gen(rng, 250, 30))
    elif r < 0.5:
        e.update(k='bad', how=rng.choice(['load', 'flow', 'walls',
                                          'ratios']))
    elif r < 0.6:
        # the question to come, asked first for other wall temperatures
        e.update(k='probe', how=rng.choice(['turn', 'swap', 'shift']),
                 x=rng.randrange(8))
    elif r < 0.75:
        if rng.random() < 0.3:
            i = rng.randrange(len(sy['net']['pipes']))
            p = sy['net']['pipes'][i]
            e.update(k='query', i=i,
                     q=pipeq.gen_query(rng, p, pipeq.gen_args(rng, p)))
        else:
            a = netq.near(rng, sy['net'], st['a'])[0]
            e.update(k='query', i=None, q=netq.gen_query(rng, sy['net'], a))
    elif r < 0.8:
        e.update(k='fork', keep=rng.random() < 0.5,
                 Q=kit.uni(rng, -9000., 9000., 1))
        if rng.random() < 0.5:
            i = rng.randrange(len(sy['net']['pipes']))
            e['u'] = [i, kit.gen_update(rng, sy['net']['pipes'][i])]
    elif r < 0.84:
        e.update(k='meanwhile')
    elif r < 0.92:
        e.update(k='trial', q=kit.uni(rng, -90., 90., 2),
                 ev=rng.random() < 0.7)
    else:
        e.update(k='crash')
    return e


def generate(rng, tier):
    n = rng.randint(3, 8 if tier == 'quick' else 16)
    systems = [gen_system(rng, n)]
    if rng.random() < 0.3:
        # a variant of the first system, in the same process
        t = copy.deepcopy(systems[0])
        for st in t['steps']:
            if 'Q' in st:
                st['Q'] *= 0.8
            b = netq.near(rng, t['net'], st['a'])[0]
            if operate.moderate(t['net'], b):
                st['a'] = b
        t['T_g'] += 1.
        if rng.random() < 0.4:
            recombine(rng, t)
        systems.append(t if rng.random() < 0.6 else gen_system(rng, n))
    script = []
    for k in range(n):
        for i in range(len(systems)):
            ev = [gen_event(rng, systems[i], k)
                  for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
            script.append(['step', i, sorted(ev, key=lambda e: e['at'])])
    for _ in range(rng.choice([0, 1, 2, 3])):
        script.insert(rng.randint(1, len(script)), ['checkpoint',
                                                    rng.random() < 0.5])
    return {'systems': systems, 'ops': script}


# ---------------------------------------------------------------------------
# the system

def response(w, sy, times):
    s = sy['agg']
    bs = [kit.make_borehole(w, p['b']) for p in sy['net']['pipes']]
    if s['g'] == 'gf':
        g = w.gfunction.gFunction(
            bs, ALPHA, time=np.array(times, dtype=float),
            method='detailed', boundary_condition='UHTR',
            options={'nSegments': 1, 'segment_ratios': None}).gFunc
        return np.array(g)
    h = np.zeros((len(bs), len(bs), len(times)))
    for i, b1 in enumerate(bs):
        for j, b2 in enumerate(bs):
            h[i, j] = w.heat_transfer.finite_line_source(
                np.array(times, dtype=float), ALPHA, b2, b1)
    if s['ns'] > 1:
        return h
    H = np.array([b.H for b in bs])
    return np.einsum('i,ijt->t', H, h) / H.sum()


class Plant:
    """The objects of one system: network and aggregation scheme."""

    def __init__(self, w, sy, G=None):
        self.w, self.sy = w, sy
        self.net = netq.make_network(w, sy['net'])
        self.agg, self.G = make_agg(w, sy, G)


def make_agg(w, sy, G=None):
    s = sy['agg']
    agg = getattr(w.load_aggregation, s['kind'])(
        s['dt'], s['dt'] * s['nt'], nSources=s['ns'], **s['opt'])
    if G is None:
        G = response(w, sy, agg.get_times_for_simulation())
    agg.initialize(G.copy())
    return agg, G


def expand(sy, st, T):
    """Wall temperatures of the segments."""
    nb = len(sy['net']['pipes'])
    n = st['a']['n']
    ns = n if isinstance(n, list) else [n] * nb
    T = np.broadcast_to(np.ravel(T), nb) if np.size(T) == 1 else np.ravel(T)
    return np.repeat(T, ns), np.repeat(np.arange(nb), ns)


def args(st):
    (m, cp, n), kw = netq.build(dict(st['a'], f='coef'))
    return m, cp, n, kw


def lengths(sy):
    return np.array([p['b']['H'] for p in sy['net']['pipes']])


def load(sy, Q, owner):
    """Loads of the sources from the heat extracted by the segments."""
    H = lengths(sy)
    Qb = np.bincount(owner, weights=np.ravel(Q), minlength=len(H))
    return Qb / H if sy['agg']['ns'] > 1 else np.array([Qb.sum() / H.sum()])


def give(sy, q, kept=None):
    if sy['agg']['ns'] == 1:
        return float(q[0])
    return kept(q, 'load') if kept else q.copy()


def run_step(sy, k, q0, do):
    """One time step; every call of the package goes through `do(name, f)`.
    q0: loads of the previous step, the first guess."""
    st = sy['steps'][k]
    q = q0
    T_in = T_out = Q_n = Q_f = None
    for _ in range(st['iters']):
        do('set', q)
        dT = do('superpose', None)
        T_b, owner = expand(sy, st, sy['T_g'] - np.ravel(dT)
                            / (2 * np.pi * K_S))
        if 'Q' in st:
            T_in = float(np.squeeze(do('inlet', T_b)))
        else:
            T_in = st['T']
        Q = do('heat', (T_in, T_b))
        q = q + 0.5 * (load(sy, Q, owner) - q)
        T_out = do('outlet', (T_in, T_b))
        Q_n = do('total', (T_in, T_b))
        Q_f = do('fluid', (T_in, T_b))
    do('set', q)
    T = do('superpose', None)
    return q, {'q': q, 'T_in': T_in, 'T_out': float(np.squeeze(T_out)),
               'Q_b': np.ravel(Q).copy(), 'Q_n': float(np.squeeze(Q_n)),
               'Q_f': float(np.sum(Q_f)), 'dT': np.ravel(T).copy(),
               'T_b': T_b}


NET = {'inlet': 'get_network_inlet_temperature',
       'heat': 'get_borehole_heat_extraction_rate',
       'outlet': 'get_network_outlet_temperature',
       'total': 'get_network_heat_extraction_rate',
       'fluid': 'get_fluid_heat_extraction_rate'}


def on_network(net, st, name, x, kept=None):
    m, cp, n, kw = args(st)
    f = getattr(net, NET[name])
    if name == 'inlet':
        a = (st['Q'], x.copy(), m, cp, n)
    else:
        a = (x[0], x[1].copy(), m, cp, n)
    if kept:
        a, kw = kept.call(a, kw)
    return f(*a, **kw)


def other_walls(e, T):
    if e['how'] == 'turn':
        return np.roll(T, 1 + e['x'])
    if e['how'] == 'swap':
        return T[::-1].copy()
    T = T.copy()
    T[e['x'] % len(T)] += 1.
    return T


def trajectory(sy, G):
    """The same simulation with a newly built network in every step, and a
    newly built aggregation scheme for every evaluation."""
    out = []
    q = np.zeros(sy['agg']['ns'])
    accepted = []
    cur = sy['net']
    for k, st in enumerate(sy['steps']):
        w = World()
        if st['u']:
            cur = netq.with_update(cur, *st['u'])
        held = [None]
        net = netq.make_network(w, cur)

        def do(name, x):
            if name == 'set':
                held[0] = x
                return None
            if name == 'superpose':
                a = make_agg(w, sy, G)[0]
                for j, y in enumerate(accepted + held):
                    a.next_time_step((j + 1) * sy['agg']['dt'])
                    a.set_current_load(give(sy, y))
                return a.temporal_superposition()
            return on_network(net, st, name, x)
        q, rec = run_step(sy, k, q, do)
        accepted.append(q)
        out.append(rec)
        w.close()
    return out


# ---------------------------------------------------------------------------

class Crash(Exception):
    pass


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.w = World()
        self.ps = [Plant(self.w, sy) for sy in plan['systems']]
        self.at = [0] * len(self.ps)
        self.q = [np.zeros(sy['agg']['ns']) for sy in plan['systems']]
        self.G = [p.G.copy() for p in self.ps]
        # the arrays of the caller: new ones for every call, or one for each
        # argument, filled again for every call
        self.kept = [kit.Buffers() if sy.get('refill') else None
                     for sy in plan['systems']]
        self.want = [None] * len(self.ps)
        self.saved = None
        self.seen = False
        self.busy = False

    def must(self, kind, what, f, *a):
        out = kit.call(f, *a)
        self.ctx.check(not isinstance(out, kit.Raised), kind,
                       lambda: f'{what}: {out!r}: {out.exc}')
        return out

    # -- events of the script ----------------------------------------------
    def checkpoint(self, together):
        objs = [(p.net, p.agg) for p in self.ps]
        blob = self.must('cannot-save', 'checkpoint', self.w.dump, objs) \
            if together else [self.must('cannot-save', 'checkpoint',
                                        self.w.dump, o) for o in objs]
        self.saved = (together, blob, list(self.at),
                      [q.copy() for q in self.q])
        self.ctx.count('checkpoints')
        self.ctx.event('checkpoint', together)

    def restart(self):
        self.w.close()
        self.w = World()
        self.ctx.fault('crash and restart')
        self.ps = [Plant(self.w, sy, g)
                   for sy, g in zip(self.plan['systems'], self.G)]
        if self.saved is None:
            self.at = [0] * len(self.ps)
            self.q = [np.zeros(sy['agg']['ns'])
                      for sy in self.plan['systems']]
            return
        together, blob, at, q = self.saved
        objs = self.must('cannot-restore', 'checkpoint', self.w.load, blob) \
            if together else [self.must('cannot-restore', 'checkpoint',
                                        self.w.load, b) for b in blob]
        for p, (net, agg) in zip(self.ps, objs):
            p.net, p.agg = net, agg
        self.at, self.q = list(at), [x.copy() for x in q]

    def step(self, i, events):
        if i >= len(self.ps):
            return
        if self.at[i] >= len(self.plan['systems'][i]['steps']):
            return
        try:
            self.advance(i, events)
        except Crash:
            self.restart()

    def advance(self, i, events):
        ctx, p = self.ctx, self.ps[i]
        sy = p.sy
        k = self.at[i]
        st = sy['steps'][k]
        p.agg.next_time_step((k + 1) * sy['agg']['dt'])
        if st['u']:
            j, u = st['u']
            if st.get('uf'):
                inj = faults.make(st['uf'])
                with inj:
                    kit.call(kit.apply_update, p.net.p[j],
                             sy['net']['pipes'][j], u)
                if inj.fired:
                    ctx.fault(faults.name(st['uf']))
                    ctx.state('fault', 'update', getattr(inj, 'where', None))
                    self.seen = True
            kit.apply_update(p.net.p[j], sy['net']['pipes'][j], u)
            ctx.count('resistance updates')
        pending = [dict(e) for e in events]
        count = [0]
        held = []                       # results as handed out, and copies
        loads = [None]
        kept = self.kept[i]

        def perform(name, x):
            if name == 'set':
                loads[0] = x
                y = give(sy, x, kept)
                p.agg.set_current_load(y)
                if sy.get('refill') == 'wipe' and np.size(y) > 1:
                    y[...] = 17. - 3. * y
                return
            if name == 'superpose':
                return p.agg.temporal_superposition()
            return on_network(p.net, st, name, x, kept)

        def do(name, x):
            c, count[0] = count[0], count[0] + 1
            fault = None
            while pending and pending[0]['at'] <= c:
                e = pending.pop(0)
                if e['k'] == 'fault':
                    fault = e['f']
                elif e['k'] == 'probe':
                    self.probe(i, e, perform, name, x)
                else:
                    self.disturb(i, st, e, p, loads)
            if fault is not None:
                inj = faults.make(fault)
                with inj:
                    out = kit.call(perform, name, x)
                if inj.fired:
                    ctx.fault(faults.name(fault))
                    ctx.state('fault', name, getattr(inj, 'where', None))
                    ctx.event(i, k, 'fault', name)
                    self.seen = True
            out = perform(name, x)
            if isinstance(out, np.ndarray):
                mine = out.copy()
                if out.flags.writeable:
                    out[...] = 1e3          # results belong to the caller
                return mine
            return out
        q, rec = run_step(sy, k, self.q[i], do)
        self.q[i] = q
        self.at[i] = k + 1
        ctx.sim_time += sy['agg']['dt']
        ctx.count('time steps')
        up = np.sum(operate.flows(sy['net'], st['a']['m'])[0]) < 0
        ctx.state('step', sy['agg']['kind'], sy['agg']['ns'] > 1, 'Q' in st,
                  bool(up), len(sy['net']['pipes']))
        ctx.event(i, k, rec['q'], rec['T_in'], rec['T_out'], rec['dT'])
        self.compare(i, k, rec)
        if k > 0 or self.seen:
            ctx.nontrivial = True

    def probe(self, i, e, perform, name, x):
        if name in ('set', 'superpose'):
            return
        T = other_walls(e, x if name == 'inlet' else x[1])
        perform(name, T if name == 'inlet' else (x[0], T))
        self.seen = True
        self.ctx.count('questions asked for other wall temperatures')
        self.ctx.state('probe', e['how'], name)
        self.ctx.event(i, 'probe', name)

    def disturb(self, i, st, e, p, loads):
        ctx, sy = self.ctx, p.sy
        self.seen = True
        kind = e['k']
        ctx.state(kind, e.get('how'), sy['agg']['kind'])
        ctx.event(i, kind)
        if kind == 'crash':
            raise Crash()
        if kind == 'query':
            obj = p.net if e['i'] is None else p.net.p[e['i']]
            (netq if e['i'] is None else pipeq).run(self.w, obj, e['q'])
            ctx.count('inspections')
        elif kind == 'bad':
            m, cp, n, kw = args(st)
            T = np.full(3, 10.)
            if e['how'] == 'load':
                out = kit.call(p.agg.set_current_load,
                               np.zeros(sy['agg']['ns'] + 3))
            elif e['how'] == 'flow':
                out = kit.call(p.net.get_network_outlet_temperature, 5., T,
                               np.full(9, 0.1), cp, n, **kw)
            elif e['how'] == 'walls':
                out = kit.call(p.net.get_borehole_heat_extraction_rate, 5.,
                               np.zeros((2, 2, 2)), m, cp, n, **kw)
            else:
                out = kit.call(p.net.coefficients_outlet_temperature, m, cp,
                               n, segment_ratios=[np.ones(7) / 7] * 2)
            if isinstance(out, kit.Raised):
                ctx.fault('rejected call')
            elif e['how'] == 'load' and loads[0] is not None:
                p.agg.set_current_load(give(sy, loads[0]))
        elif kind == 'meanwhile':
            # the other system makes its next step
            for j in range(len(self.ps)):
                if j != i and not self.busy:
                    self.busy = True
                    try:
                        self.step(j, [])
                    finally:
                        self.busy = False
                    ctx.count('steps of another system within a step')
        elif kind == 'trial':
            # a what-if within the step; then the load is set again
            if loads[0] is not None:
                p.agg.set_current_load(give(sy, loads[0] * 0. + e['q']))
                if e['ev']:
                    p.agg.temporal_superposition()
                p.agg.set_current_load(give(sy, loads[0]))
                ctx.count('trial loads')
        else:
            net, agg = self.must('cannot-fork', 'fork', copy.deepcopy,
                                 (p.net, p.agg))
            ctx.fault('fork')
            other = (p.net, p.agg) if e['keep'] else (net, agg)
            if e['keep']:
                p.net, p.agg = net, agg
            # the copy that is given up goes its own way
            if e.get('u'):
                j, u = e['u']
                kit.apply_update(other[0].p[j], sy['net']['pipes'][j], u)
            m, cp, n, kw = args(st)
            T_b, owner = expand(sy, st, np.full(1, 4.))
            T = other[0].get_network_inlet_temperature(
                e['Q'], T_b, m, cp, n, **kw)
            Q = other[0].get_borehole_heat_extraction_rate(
                float(np.squeeze(T)), T_b, -np.asarray(m) * 0.7
                if isinstance(m, np.ndarray) else m * 0.7, cp, n, **kw)
            other[1].set_current_load(give(sy, load(sy, Q, owner)))
            other[1].temporal_superposition()
            if k_room(sy, self.at[i]):
                other[1].next_time_step((self.at[i] + 2) * sy['agg']['dt'])

    def compare(self, i, k, rec):
        ctx, sy = self.ctx, self.plan['systems'][i]
        if self.want[i] is None:
            self.want[i] = trajectory(sy, self.G[i])
        want = self.want[i][k]
        st = sy['steps'][k]
        H = lengths(sy)
        sT = max(1., abs(rec['T_in'] - sy['T_g']),
                 abs(want['T_in'] - sy['T_g']))
        m = float(np.sum(np.abs(
            operate.flows(sy['net'], st['a']['m'])[0])))
        sQ = m * st['a']['cp'] * sT
        scale = {'q': sQ / H.sum(), 'T_in': sT, 'T_out': sT, 'Q_b': sQ,
                 'Q_n': sQ, 'Q_f': sQ, 'dT': sT * 2 * np.pi * K_S, 'T_b': sT}
        ctx.count('steps compared')
        for key, s in scale.items():
            a, b = np.ravel(rec[key]), np.ravel(want[key])
            ok = a.shape == b.shape and np.all(np.isfinite(a)) and \
                np.all(np.abs(a - b) <= RTOL * s)
            ctx.check(ok, 'trajectory', lambda: f'system {i} step {k}: {key} '
                      f'{a}, expected {b} (scale {s:.3g})')
        # the balances of the whole system
        e = max(abs(rec['Q_b'].sum() - rec['Q_n']),
                abs(rec['Q_f'] - rec['Q_n']))
        ctx.check(e <= 1e-4 * sQ, 'balance', lambda: f'system {i} step {k}: '
                  f'segments {rec["Q_b"].sum()}, fluid {rec["Q_f"]}, network '
                  f'{rec["Q_n"]}')
        if 'Q' in st:
            ctx.check(abs(rec['Q_n'] - st['Q']) <= 1e-4 * sQ,
                      'prescribed-heat', lambda: f'system {i} step {k}: '
                      f'{rec["Q_n"]} W instead of {st["Q"]} W')


def k_room(sy, k):
    return k + 2 < sy['agg']['nt']


def execute(plan, ctx):
    sim = Sim(plan, ctx)
    for e in plan['ops']:
        getattr(sim, e[0])(*e[1:])
    # progress: once disturbances stop, every simulation completes
    for i in range(len(sim.ps)):
        while sim.at[i] < len(plan['systems'][i]['steps']):
            sim.step(i, [])
    sim.w.close()


def simplify(plan):
    if len(plan['systems']) > 1:
        for keep in (0, 1):
            yield {'systems': [plan['systems'][keep]], 'ops': [
                [e[0], 0] + e[2:] if e[0] == 'step' else e
                for e in plan['ops'] if e[0] != 'step' or e[1] == keep]}
    for j, e in enumerate(plan['ops']):
        if e[0] == 'step':
            for x in range(len(e[2])):
                ops = list(plan['ops'])
                ops[j] = [e[0], e[1], e[2][:x] + e[2][x + 1:]]
                yield dict(plan, ops=ops)
    n = len(plan['systems'][0]['steps'])
    if n > 1 and len(plan['systems']) == 1:
        s = plan['systems'][0]
        yield dict(plan, systems=[dict(s, steps=s['steps'][:-1])])
        for k in range(n):
            if s['steps'][k]['iters'] > 1:
                t = list(s['steps'])
                t[k] = dict(t[k], iters=1)
                yield dict(plan, systems=[dict(s, steps=t)])
