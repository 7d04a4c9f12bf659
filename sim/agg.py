"""Load aggregation: a simulated controller drives the real schemes step by
step; small reference models say what every answer must be.  Shared by
C09-C12."""
import copy
import math

import numpy as np

from . import kit, tasks
from .world import World

RTOL = 1e-9


# ---------------------------------------------------------------------------
# reference models (ages are counted in time steps)

class RefCJ:
    """Cells of doubling width; every step a fraction 1/width of each cell
    moves on to the next one."""

    def __init__(self, s):
        self.w = []
        total = 0.
        level = 0
        while total < s['tmax'] / s['dt'] - 1e-9:
            self.w.append(2 ** level)
            total += 2 ** level
            if len(self.w) % s['opt']['cells_per_level'] == 0:
                level += 1
        self.q = [np.zeros(s['ns']) for _ in self.w]
        self.leak = np.zeros(s['ns'])
        self.exact_until = s['opt']['cells_per_level']

    def ages(self):
        return list(np.cumsum(self.w))

    def next(self):
        q, w = self.q, self.w
        self.leak = self.leak + q[-1]
        self.q = [np.zeros_like(q[0])] + [
            q[i] * (1. - 1. / w[i]) + q[i - 1] / w[i]
            for i in range(1, len(q))]

    def set(self, q):
        self.q[0] = q

    def cells(self):
        return list(zip(self.w, self.q))


class RefMLAA:
    def __init__(self, s):
        self.n = [s['opt'][k] for k in ('N0', 'N1', 'N2', 'N3')]
        self.nt = math.ceil(s['tmax'] / s['dt'] - 1e-9)
        self.hist = []
        self.ns = s['ns']
        self.leak = np.zeros(s['ns'])
        self.exact_until = self.n[0]

    def ages(self):
        return list(range(1, self.nt + 1))

    def next(self):
        self.hist.append(np.zeros(self.ns))

    def set(self, q):
        self.hist[-1] = q

    def cells(self):
        rest = list(self.hist)
        out = []
        for _ in range(min(len(rest), self.n[0])):
            out.append((1, rest.pop()))
        for n in self.n[1:]:
            if len(rest) < n:
                break
            out.append((n, np.mean(rest[-n:], axis=0)))
            del rest[-n:]
        if rest:
            out.append((len(rest), np.mean(rest, axis=0)))
        return out


class RefLiu:
    def __init__(self, s):
        o = s['opt']
        self.N = [o['N1'], o['N2'], o['N3']]
        self.W = [o['W1'], o['W2'], o['W3']]
        self.nt = math.ceil(s['tmax'] / s['dt'] - 1e-9)
        self.ns = s['ns']
        self.level = [[], [], [], []]          # newest first
        self.leak = np.zeros(s['ns'])
        self.exact_until = self.N[0] + self.W[0] - 1

    def ages(self):
        return list(range(1, self.nt + 1))

    def next(self):
        self.level[0].insert(0, np.zeros(self.ns))
        for k in range(3):
            a, n = self.level[k], self.N[k]
            if len(a) < n + self.W[k]:
                break
            self.level[k + 1].insert(0, np.mean(a[-n:], axis=0))
            del a[-n:]

    def set(self, q):
        self.level[0][0] = q

    def cells(self):
        w = [1, self.N[0], self.N[0] * self.N[1],
             self.N[0] * self.N[1] * self.N[2]]
        return [(w[k], q) for k in range(4) for q in self.level[k]]


REF = {'ClaessonJaved': RefCJ, 'MLAA': RefMLAA, 'Liu': RefLiu}


def superpose(cells, G, ns):
    """Sum over the cells of load times increment of the response."""
    dT = np.zeros(ns)
    size = 0.
    a = 0
    for w, q in cells:
        b = a + w
        if np.any(q):
            inc = G[b] - (G[a] if a else 0.)
            dT = dT + inc @ q
            # rounding is relative to the factors, not to their increments
            big = np.abs(G[b]) + (np.abs(G[a]) if a else 0.)
            size += float(np.sum(big @ np.abs(q)))
        a = b
    return dT, size


# ---------------------------------------------------------------------------
# generation

def gen_spec(rng, kind, nt, tier):
    s = {'kind': kind, 'dt': rng.choice([60., 600., 900., 1800., 3600.,
                                         3600., 7200., 86400.]),
         'ns': rng.choice([1, 1, 1, 2, 2, 3, 4])}
    # the last step may be incomplete
    if rng.random() < 0.15:
        s['dt'] = int(s['dt'])
    s['tmax'] = s['dt'] * (nt if rng.random() < 0.7 else nt - 0.5)
    small = rng.random() < 0.8
    if kind == 'ClaessonJaved':
        s['opt'] = {'cells_per_level': rng.choice([1, 2, 3, 4, 5, 7])}
    elif kind == 'MLAA':
        hi = rng.choice([2, 4, 7]) if small else 16
        s['opt'] = {k: rng.randint(1, hi) for k in ('N0', 'N1', 'N2', 'N3')}
    else:
        hi = rng.choice([2, 3, 4]) if small else 7
        s['opt'] = {k: rng.randint(1, hi)
                    for k in ('N1', 'N2', 'N3', 'W1', 'W2', 'W3')}
    s['tau'] = [kit.uni(rng, 0.5, 30., 3) for _ in range(3)]
    s['shape'] = rng.choice(tasks.SHAPES)
    s['g3'] = rng.random() < 0.3          # 3-D array even for one source
    return s


FORMS = ('array', 'array', 'list', 'tuple', 'int', 'numpy', 'one')
PROFILES = ('random', 'constant', 'pulse', 'season', 'sparse', 'loop', 'wild')


def load_at(rng, prof, k, ns):
    def one():
        if prof == 'constant':
            return 20.
        if prof == 'pulse':
            return 1000. if k == 2 else 0.
        if prof == 'season':
            return round(30. * math.sin(k / 4.), 3)
        if prof == 'sparse':
            return kit.uni(rng, -60., 60., 2) if rng.random() < 0.15 else 0.
        if prof == 'wild':
            return kit.uni(rng, -1., 1., 4) * 10. ** rng.randint(-3, 6)
        return kit.uni(rng, -50., 80., 3)
    return [one() for _ in range(ns)]


def gen_history(rng, tier, kind):
    long = rng.random() < (0.05 if tier == 'quick' else 0.1)
    nt = rng.randint(2, 40) if rng.random() < 0.6 else rng.randint(40, 120)
    if long:
        nt = rng.randint(200, 700 if tier == 'quick' else 2000)
    s = gen_spec(rng, kind, nt, tier)
    if long:
        full = tier != 'quick' and kind == 'Liu' and rng.random() < 0.1
        if full:
            nt = 14000
        s['tmax'] = s['dt'] * nt
        s['opt'] = {'ClaessonJaved': {'cells_per_level': 5},
                    'MLAA': {'N0': 12, 'N1': 48, 'N2': 168, 'N3': 360},
                    'Liu': {'N1': 24, 'N2': 5, 'N3': 73, 'W1': 12, 'W2': 3,
                            'W3': 40}}[kind]
        # the options of a call without options
        s['default'] = rng.random() < 0.5
        if not full and kind == 'Liu' and rng.random() < 0.6:
            s['default'] = False
            s['opt'] = {'N1': 6, 'N2': 4, 'N3': 5, 'W1': 3, 'W2': 2, 'W3': 2}
        s['ns'] = rng.choice([1, 2])
    prof = rng.choice(PROFILES)
    n = nt if rng.random() < 0.7 else rng.randint(max(1, nt // 2), nt)
    steps = []
    busy = 0.35 if not long else 0.03
    for k in range(n):
        ops = []
        if rng.random() < 0.03:
            ops.append(['eval'])                 # load not yet set
        if rng.random() > 0.04:
            ops.append(['set', load_at(rng, prof, k, s['ns']),
                        rng.choice(FORMS)])
            if prof == 'loop':
                ops[-1] = ['loop', ops[-1][1], kit.uni(rng, 0.1, 2., 2)]
        while rng.random() < busy:
            r = rng.random()
            if r < 0.35:
                ops.append(['eval'])
            elif r < 0.6:
                ops.append(['set', load_at(rng, prof, k, s['ns']), rng.choice(FORMS)])
            elif r < 0.7:
                ops.append(['dup'])
            elif r < 0.8:
                ops.append(['read'])
            elif r < 0.9 and not long:
                ops.append([rng.choice(['restart', 'fork'])])
            elif r < 0.94:
                # other response factors from now on
                ops.append(['reinit', [kit.uni(rng, 0.5, 30., 3)
                                       for _ in range(3)],
                            rng.choice(tasks.SHAPES)])
        if rng.random() < (0.75 if not long else 0.05) or k == n - 1:
            ops.append(['eval'])
        steps.append(ops)
    return {'spec': s, 'steps': steps,
            'hand': rng.choice([None, None, None, 'refill', 'wipe'])}


# ---------------------------------------------------------------------------
# execution

def make(world, s, G=None):
    cls = getattr(world.load_aggregation, s['kind'])
    obj = cls(s['dt'], s['tmax'], nSources=s['ns'],
              **({} if s.get('default') else s['opt']))
    t = obj.get_times_for_simulation()
    g = response(s, t) if G is None else G(t)
    obj.initialize(g)
    return obj, t


def response(s, times):
    g = tasks.g_values(times, s['ns'], s['tau'], s['shape'])
    if s['ns'] == 1 and s.get('g3'):
        g = g.reshape(1, 1, -1)
    return g


def factors(s, ages):
    g = response(s, np.array(ages, dtype=float) * s['dt'])
    g = g.reshape(s['ns'], s['ns'], -1)
    return g, {a: g[:, :, i] for i, a in enumerate(ages)}


def linear(s):
    def G(times):
        g = np.zeros((s['ns'], s['ns'], len(times)))
        for i in range(s['ns']):
            g[i, i] = np.asarray(times) / s['dt']
        return g
    return G


def give(s, q, how='array'):
    if s['ns'] == 1 and how not in ('one', 'list'):
        return np.float64(q[0]) if how == 'numpy' else q[0]
    return list(q) if how == 'list' else tuple(q) if how == 'tuple' \
        else np.array(q)


class Hand:
    """How the controller hands over its loads: a new array every time, or
    one array that it fills again ('refill') and uses for other things as
    soon as the call has returned ('wipe')."""

    def __init__(self, s, mode):
        self.ns = s['ns']
        self.mode = mode
        self.buffers = kit.Buffers(bool(mode))
        self.last = None

    def __call__(self, s, q, how='array'):
        if not self.mode:
            return give(s, q, how)
        if how == 'array' and self.ns == 1:
            how = 'one'
        x = give(s, np.array(q, dtype=float) if how in ('array', 'one')
                 else q, how)
        self.last = self.buffers(x, 'load')
        return self.last

    def done(self):
        if self.mode == 'wipe' and isinstance(self.last, (np.ndarray, list)):
            self.last[:] = [17. - 3. * v for v in self.last]


def execute(plan, ctx):
    s = plan['spec']
    w = World()
    hand = Hand(s, plan.get('hand'))
    obj, times = make(w, s)
    twin, _ = make(World(), s, linear(s))
    ref = REF[s['kind']](s)
    ages = ref.ages()
    same = len(times) == len(ages) and np.allclose(
        np.asarray(times), np.array(ages, dtype=float) * s['dt'], rtol=1e-9)
    ctx.check(same, 'times', lambda: f'get_times_for_simulation returned '
              f'{np.asarray(times)[:12]}..., expected '
              f'{np.array(ages[:12]) * s["dt"]}...')
    g, G = factors(s, ages)
    total = np.zeros(s['ns'])
    hist = []
    last = None
    for k, ops in enumerate(plan['steps']):
        t = (k + 1) * s['dt']
        obj.next_time_step(t)
        twin.next_time_step(t)
        ref.next()
        hist.append(np.zeros(s['ns']))
        ctx.sim_time += s['dt']
        ctx.count('time steps')
        n_set = 0
        for op in ops:
            if op[0] in ('set', 'loop'):
                q = list(op[1])
                if op[0] == 'loop' and last is not None:
                    q = [round(a + op[2] * b, 6) for a, b in zip(q, -last)]
                how = op[2] if op[0] == 'set' else 'array'
                if how == 'int':
                    q = [round(v) for v in q]
                obj.set_current_load(hand(s, q, how))
                hand.done()
                twin.set_current_load(give(s, q))
                ref.set(np.array(q, dtype=float))
                hist[-1] = np.array(q, dtype=float)
                n_set += 1
                if n_set > 1:
                    ctx.fault('revised load')
            elif op[0] == 'dup':
                obj.set_current_load(give(s, list(hist[-1])))
                ctx.fault('duplicated load')
            elif op[0] == 'reinit':
                s = dict(s, tau=op[1], shape=op[2])
                obj.initialize(response(s, times))
                g, G = factors(s, ages)
                ctx.count('new response factors')
            elif op[0] == 'read':
                now = obj.get_times_for_simulation()
                ctx.check(np.array_equal(now, times), 'times',
                          lambda: f'step {k}: times changed')
                if s['kind'] == 'ClaessonJaved':
                    inc = np.asarray(
                        obj.get_thermal_response_factor_increment())
                    want = np.diff(g, axis=2, prepend=0.)
                    ctx.check(inc.size == want.size and np.allclose(
                        inc.ravel(), want.ravel(), rtol=1e-9, atol=1e-12),
                        'increments', lambda: f'step {k}: increments of the '
                        f'response factors {inc.ravel()[:8]}, expected '
                        f'{want.ravel()[:8]}')
            elif op[0] == 'restart':
                w2 = World()
                obj = w2.load(w.dump(obj))
                w = w2
                ctx.fault('crash and restart from checkpoint')
            elif op[0] == 'fork':
                old = obj
                obj = copy.deepcopy(obj)
                old.set_current_load(give(s, [1e6] * s['ns']))
                old.temporal_superposition()
                ctx.fault('fork')
            elif op[0] == 'eval':
                y = np.ravel(obj.temporal_superposition())
                ctx.event(k, 'eval', y)
                cells = ref.cells()
                want, size = superpose(cells, G, s['ns'])
                ok = y.shape == want.shape and np.all(np.abs(
                    y - want) <= RTOL * size + 1e-300)
                ctx.check(ok, 'superposition', lambda: f'step {k + 1}: '
                          f'{y}, expected {want} for cells (newest first) '
                          f'{show(cells)}')
                if len(hist) <= ref.exact_until and (k + 1) in G:
                    full, size = superpose([(1, q) for q in hist[::-1]], G,
                                           s['ns'])
                    ctx.count('answers without aggregation')
                    ctx.check(np.all(np.abs(y - full) <= RTOL * size
                                     + 1e-300), 'recent-loads-exact',
                              lambda: f'step {k + 1}: {y}, not aggregated '
                              f'{full}')
                if np.all(np.isfinite(y)):
                    last = np.clip(y, -200., 200.)
                ctx.count('answers compared')
                ctx.nontrivial = True
                ctx.state(s['kind'], len(cells), s['ns'] > 1,
                          prof_size(cells))
                e = np.ravel(twin.temporal_superposition())
                total = np.sum(hist, axis=0)
                mag = float(np.sum(np.abs(hist))) + 1e-300
                want = total - ref.leak
                ctx.check(e.shape == want.shape and np.all(np.abs(
                    e - want) <= 1e-9 * mag), 'energy', lambda:
                    f'step {k + 1}: energy held by the cells {e}, loads '
                    f'given {total}' + (f', left the last cell {ref.leak}'
                                        if np.any(ref.leak) else ''))
    if hand.buffers.refilled:
        ctx.count('load arrays filled again', hand.buffers.refilled)
    w.close()


def prof_size(cells):
    return tuple(sorted({w for w, _ in cells}))[-3:]


def show(cells):
    return '; '.join(f'{w}:{np.round(q, 4).tolist()}' for w, q in cells[:12])


def simplify(plan):
    if plan.get('hand'):
        yield dict(plan, hand=None)
    for k, ops in enumerate(plan['steps'][:60]):
        for j in range(len(ops)):
            steps = list(plan['steps'])
            steps[k] = ops[:j] + ops[j + 1:]
            yield dict(plan, steps=steps)
