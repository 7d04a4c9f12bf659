"""C06  Callers and the library never share mutable data by accident.

The same script is executed twice, in two simulated processes: once by a
well-behaved caller that passes fresh arrays and never touches what it
received, once by a caller that re-uses its buffers, overwrites arguments
after the call and overwrites returned arrays.  All answers must be equal;
and every array, list and borehole the caller holds must keep its content
for as long as the caller does not change it itself.
"""
import numpy as np

from .. import plots, kit, netq, pipeq, tasks
from ..world import World
from ..engine import Violation

ID = 'C06'
RUNS = {'quick': 4500, 'thorough': 80000}
RULE = ('a run is one script of 5-40 calls on a pipe, network, aggregation '
        'scheme, g-function, bore field or stand-alone functions, executed '
        'by a careful caller and by one that overwrites buffers; '
        'non-trivial: at least one buffer overwritten before a later answer '
        'was compared; distinct by the digest of its event log')
REAL = ['pygfunction (all modules)', 'numpy', 'scipy']
STUBS = ['process start', 'the two callers']
STATE_MEASURE = ('pairs of successive (kind of object, operation, buffer '
                 'overwritten or not)')


# ---------------------------------------------------------------------------

class Caller:
    """What a calling program holds."""

    def __init__(self, ctx, hostile):
        self.ctx = ctx
        self.hostile = hostile
        self.held = []          # [label, object, snapshot, is_array]
        self.pool = {}
        self.reuse = False
        self.refill = None      # arrays filled again for every call
        self.scribbled = 0

    # -- arguments
    def arr(self, values, dtype=float):
        v = np.array(values, dtype=dtype)
        if not self.hostile:
            return v
        if self.refill is not None:
            return self.filled(v)
        if self.reuse and self.pool.get((v.shape, v.dtype.str)):
            b = self.pool[(v.shape, v.dtype.str)].pop()
            b[...] = v
            v = b
            self.ctx.count('buffers re-used')
        self.hold('argument', v)
        return v

    def filled(self, v):
        k = (v.shape, v.dtype.str)
        self.nth[k] = self.nth.get(k, 0) + 1
        k += (self.nth[k],)
        b = self.refill.get(k)
        if b is None:
            self.refill[k] = v
        else:
            if b.tobytes() != v.tobytes():
                self.ctx.count('buffers filled again')
                self.scribbled += 1
            b[...] = v
            self.held = [h for h in self.held if h[1] is not b]
            v = b
        self.hold('argument', v)
        return v

    def lst(self, values):
        """A list of numbers."""
        v = list(values)
        if not self.hostile:
            return v
        if self.reuse and self.pool.get('list'):
            b = self.pool['list'].pop()
            b[:] = v
            v = b
            self.ctx.count('buffers re-used')
        self.hold('argument', v)
        return v

    def objects(self, x):
        """A list of objects (boreholes, pipes, positions)."""
        v = list(x)
        if self.hostile:
            self.held.append(['list of objects', v, list(v), True])
        return v

    def hold(self, label, x, depth=0):
        if not self.hostile:
            return x
        if isinstance(x, np.ndarray):
            if x.dtype != object and not any(h[1] is x for h in self.held):
                self.held.append([label, x, x.copy(), True])
        elif isinstance(x, list) and x and all(
                isinstance(i, (int, float)) for i in x):
            if any(h[1] is x for h in self.held):
                return x
            self.held.append([label, x, list(x), True])
        elif isinstance(x, (list, tuple)) and depth < 3:
            for i in x:
                self.hold(label, i, depth + 1)
        elif isinstance(x, dict):
            # the dictionary itself: its keys and plain values
            self.held.append([label + ' options', x, plain(x), False])
            for i in x.values():
                self.hold(label, i, depth + 1)
        elif type(x).__name__ == 'Borehole':
            self.held.append([label + ' borehole', x, bore(x), False])
        return x

    def verify(self, i, what):
        for label, x, snap, _ in self.held:
            if isinstance(x, np.ndarray):
                same = x.shape == snap.shape and \
                    x.tobytes() == snap.tobytes()
            elif isinstance(x, list):
                same = len(x) == len(snap) and all(
                    p is q or p == q for p, q in zip(x, snap))
            elif isinstance(x, dict):
                same = plain(x) == snap
            else:
                same = bore(x) == snap
            self.ctx.count('assertions')
            if not same:
                raise Violation(
                    'held-data-changed',
                    f'op {i} {what}: {label} of an earlier or the current '
                    'call changed under the caller')

    def scribble(self, op):
        arrays = [h for h in self.held if h[3] and (
            isinstance(h[1], list) or h[1].flags.writeable and h[1].size)]
        if op['which'] != 'any':
            arrays = [h for h in arrays if h[0].startswith(op['which'])]
        if op.get('last'):
            arrays = arrays[-op['last']:]
        elif arrays:
            arrays = [arrays[op['r'] % len(arrays)]]
        for h in arrays:
            if h[0] == 'list of objects':
                if op['f'] == 0.:
                    h[1].append(h[1][0])
                elif op['f'] == 1.5:
                    del h[1][-1]
                else:
                    h[1].reverse()
                self.ctx.count('list of objects changed')
                self.scribbled += 1
                self.held = [g for g in self.held if g is not h]
                continue
            if isinstance(h[1], list):
                if op['d']:
                    h[1].reverse()
                else:
                    h[1][:] = [2 if v == 1 else 1 for v in h[1]]
                self.ctx.count(f'{h[0]} list overwritten')
                self.scribbled += 1
                self.held = [g for g in self.held if g is not h]
                if h[0] == 'argument':
                    self.pool.setdefault('list', []).append(h[1])
                continue
            if h[1].dtype.kind == 'f':
                h[1][...] = h[1] * op['f'] + op['d']
            elif h[1].dtype.kind in 'iu':
                h[1][...] = 0
            else:
                continue
            self.ctx.count(f'{h[0]} overwritten')
            self.scribbled += 1
            self.held = [g for g in self.held if g is not h]
            if h[0] == 'argument' and h[1].flags.owndata:
                self.pool.setdefault((h[1].shape, h[1].dtype.str),
                                     []).append(h[1])


def plain(d):
    return {k: v if isinstance(v, (int, float, str, bool, type(None)))
            else id(v) for k, v in d.items()}


def bore(b):
    return {k: v for k, v in b.__dict__.items()
            if isinstance(v, (int, float, str, bool))}


# ---------------------------------------------------------------------------
# scripts

KINDS = ('pipe', 'pipe', 'network', 'network', 'agg', 'gfunc', 'static',
         'static', 'field')


def generate(rng, tier):
    kind = rng.choice(KINDS)
    plan = globals()['gen_' + kind](rng)
    ops = []
    for op in plan['ops']:
        op['reuse'] = rng.random() < 0.5
        ops.append(op)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            ops.append({'op': 'scribble',
                        'which': rng.choice(['any', 'argument', 'result', 'list of']),
                        'last': rng.choice([None, None, 1, 4]),
                        'r': rng.randrange(1000),
                        'f': rng.choice([0., 1.5, -1., 1.0001]),
                        'd': rng.choice([0., 1., 1e3])})
    plan['ops'] = ops
    plan['kind'] = kind
    if rng.random() < 0.4:
        # one array per argument, filled again for every call
        plan['refill'] = True
        if rng.random() < 0.7:
            plan['ops'] = [op for op in ops if op['op'] != 'scribble']
    return plan


def gen_pipe(rng):
    p = kit.gen_pipe(rng)
    args = [pipeq.gen_args(rng, p)]
    args.append(pipeq.near(rng, p, args[0])[0])
    pool = [pipeq.gen_query(rng, p, a, [f])
            for f in methods(rng, pipeq.METHODS)
            for a in args]
    pool += [pipeq.sibling(rng, q) for q in pool]
    ops = []
    for _ in range(rng.randint(5, 25)):
        if rng.random() < 0.1:
            ops.append({'op': 'update', 'u': kit.gen_update(rng, p)})
        elif rng.random() < 0.1:
            ops.append({'op': 'build'})
        else:
            ops.append({'op': 'use', 'k': pick(rng, pool, ops)})
    return {'spec': p, 'pool': pool, 'ops': ops}


def methods(rng, names):
    if rng.random() < 0.4:
        names = [f for f in names if f.startswith('get_')]
    return rng.sample(names, rng.randint(2, 5))


def pick(rng, pool, ops):
    """The next question: often the one before with other contents."""
    if ops and ops[-1]['op'] == 'use' and rng.random() < 0.35:
        return (ops[-1]['k'] + len(pool) // 2) % len(pool)
    return rng.randrange(len(pool))


def gen_network(rng):
    net = netq.gen_network(rng, nmax=3)
    args = [netq.gen_args(rng, net)]
    args.append(netq.near(rng, net, args[0])[0])
    pool = [netq.gen_query(rng, net, a, [f])
            for f in methods(rng, netq.METHODS)
            for a in args]
    pool += [pipeq.sibling(rng, q) for q in pool]
    ops = []
    for _ in range(rng.randint(5, 18)):
        ops.append({'op': 'use', 'k': pick(rng, pool, ops)})
    return {'spec': net, 'pool': pool, 'ops': ops}


def gen_agg(rng):
    nt = rng.randint(4, 20)
    s = tasks.gen_agg_spec(rng, nt + 2)
    ops = [{'op': 'init'}]
    for _ in range(nt):
        ops.append({'op': 'next'})
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({'op': 'load',
                        'Q': [kit.uni(rng, -50., 50., 3)
                              for _ in range(s['ns'])]})
            if rng.random() < 0.8:
                ops.append({'op': 'T'})
        if rng.random() < 0.15:
            ops.append({'op': rng.choice(['times', 'dg'])})
    return {'spec': s, 'ops': ops}


def gen_gfunc(rng):
    s = tasks.gen_gfunc_spec(rng, network=rng.random() < 0.5)
    nb = len(s['b'])
    v = rng.random()
    if v < 0.4 and s['method'] != 'equivalent':
        # per-borehole discretisation, given as arrays
        n = [rng.choice([2, 3]) for _ in range(nb)]
        if rng.random() < 0.5:
            n = [n[0]] * nb
        s['opt'] = {'nSegments': n}
        s['ratios'] = [kit.ratios(rng, k) for k in n]
    elif v < 0.6:
        s['ratios'] = kit.ratios(rng, s['opt']['nSegments'])
    if 'pipes' in s and s['method'] != 'equivalent' and rng.random() < 0.5:
        n_in = s['c'].count(-1)
        rows = rng.choice([0, 0, 2])
        m = s['m'] / n_in
        s['mb'] = [round(m * rng.uniform(0.8, 1.3), 5)
                   for _ in range(n_in)] if rows == 0 else \
            [[round(m * rng.uniform(0.8, 1.3), 5) for _ in range(n_in)]
             for _ in range(rows)]
        s['own'] = rows == 0 and rng.random() < 0.5
    ops = [{'op': 'create', 't': tasks.gen_times(rng)
            if rng.random() < 0.5 else None}]
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.12:
            ops.append({'op': 'stored'})
        elif r < 0.16:
            ops.append({'op': 'plot'})
        elif r < 0.7 or 'pipes' not in s:
            ops.append({'op': 'eval', 't': tasks.gen_times(rng)})
        else:
            net = {'pipes': s['pipes'], 'c': s['c']}
            ops.append({'op': 'net',
                        'q': netq.gen_query(rng, net,
                                            netq.gen_args(rng, net))})
    return {'spec': s, 'ops': ops}


def gen_field(rng):
    n = rng.choice([1, 2, 3, 4])
    arr = {k: [kit.uni(rng, a, b, 3) for _ in range(n)] for k, a, b in (
        ('H', 50., 150.), ('D', 1., 6.), ('r_b', 0.06, 0.09),
        ('x', 0., 20.), ('y', 30., 60.), ('tilt', 0.1, 0.4),
        ('orientation', 0., 6.))}
    r = rng.random()
    if r < 0.4:
        arr['tilt'] = arr['orientation'] = [0.] * n
    elif r < 0.6:
        arr['tilt'][0] = 0.
    ops = [{'op': 'new', 'scalar': rng.sample(['H', 'D', 'r_b'],
                                              rng.randint(0, 3))}]
    for _ in range(rng.randint(3, 8)):
        ops.append({'op': rng.choice(['read', 'boreholes', 'slice', 'add',
                                      'eq', 'g', 'duplicates']),
                    'k': rng.randrange(10)})
    return {'spec': arr, 'ops': ops}


def gen_static(rng):
    base = kit.gen_pipe(rng, kind=rng.choice(['single', 'multi']))
    pool = []
    for _ in range(rng.randint(2, 4)):
        s = tasks.gen_static_step(rng, base, f=rng.choice(
            [None, None, 'segment_ratios', 'times', 'erfint', 'exp1']))
        if rng.random() < 0.6:
            pool.append(s)
            continue
        s['f'] = rng.choice(['thermal_resistances', 'thermal_resistances',
                             'multipole', 'fls', 'flsv', 'segments',
                             'pipe'])
        s['p'] = base if rng.random() < 0.6 else kit.gen_pipe(
            rng, kind='single')
        m = len(s['p']['pos'])
        s['R'] = [round(base['R_fp'] * rng.uniform(0.9, 1.1), 5)
                  for _ in range(m)]
        s['q'] = [kit.uni(rng, -20., 30., 2) for _ in range(m)]
        s['t'] = tasks.gen_times(rng, 2)
        s['n'] = rng.choice([2, 3, 4])
        s['ratios'] = kit.ratios(rng, s['n'])
        s['asarray'] = rng.random() < 0.6
        pool.append(s)
    return {'pool': pool, 'ops': [
        {'op': 'use', 'k': rng.randrange(len(pool))}
        for _ in range(rng.randint(4, 14))]}


# ---------------------------------------------------------------------------
# execution of one operation: -> answer

def seg(c, r):
    if r is None:
        return None
    if isinstance(r[0], list):
        return [c.arr(x) for x in r]
    return c.arr(r)


def do_pipe(w, c, st, plan, op):
    if op['op'] == 'build' or 'obj' not in st:
        obj = kit.make_pipe(w, plan['spec'], lst=c.objects)
        if 'obj' in st:
            return obj.local_borehole_thermal_resistance()
        st['obj'] = obj
    if op['op'] == 'update':
        kit.apply_update(st['obj'], plan['spec'], op['u'])
        return None
    if op['op'] != 'use':
        return None
    q = plan['pool'][op['k']]
    f = q['f']
    if f == 'local_borehole_thermal_resistance':
        return pipeq.invoke(w, st['obj'], q)
    args, kw = pipeq.build(q)
    args = tuple(c.arr(a) if isinstance(a, np.ndarray) else a for a in args)
    kw = {k: c.arr(a) if isinstance(a, np.ndarray) else a
          for k, a in kw.items()}
    return pipeq.invoke(w, st['obj'], q, args, kw)


def do_network(w, c, st, plan, op):
    if 'obj' not in st:
        pipes = [kit.make_pipe(w, p, lst=c.objects)
                 for p in plan['spec']['pipes']]
        st['obj'] = w.networks.Network(
            c.objects(p.b for p in pipes), c.objects(pipes),
            bore_connectivity=c.lst(plan['spec']['c']))
        for p in pipes:
            c.hold('argument', p.b)
    q = plan['pool'][op['k']]
    args, kw = netq.build(q)

    def conv(a):
        if isinstance(a, np.ndarray):
            return c.arr(a)
        if isinstance(a, list):
            if a and isinstance(a[0], np.ndarray):
                return [c.arr(x) for x in a]
            return c.lst(a)
        return a
    return netq.invoke(w, st['obj'], q, tuple(conv(a) for a in args),
                       {k: conv(a) for k, a in kw.items()})


def do_agg(w, c, st, plan, op):
    s = plan['spec']
    if op['op'] == 'init':
        cls = getattr(w.load_aggregation, s['kind'])
        o = st['obj'] = cls(s['dt'], s['dt'] * s['nt'], nSources=s['ns'],
                            **s['opt'])
        st['k'] = 0
        t = o.get_times_for_simulation()
        g = c.arr(tasks.g_values(t, s['ns'], s['tau'], s['shape']))
        o.initialize(g)
        return t
    if 'obj' not in st:
        return None
    o = st['obj']
    if op['op'] == 'next':
        if st['k'] >= s['nt'] - 1:
            return None
        st['k'] += 1
        return o.next_time_step(st['k'] * s['dt'])
    if st['k'] == 0 and op['op'] in ('load', 'T'):
        return None
    if op['op'] == 'load':
        o.set_current_load(op['Q'][0] if s['ns'] == 1 and not op['reuse']
                           else c.arr(op['Q']))
        st['loaded'] = True
        return None
    if op['op'] == 'T':
        return o.temporal_superposition()
    if op['op'] == 'dg':
        if s['kind'] != 'ClaessonJaved':
            return None
        return o.get_thermal_response_factor_increment()
    return o.get_times_for_simulation()


def do_gfunc(w, c, st, plan, op):
    s = plan['spec']
    if op['op'] == 'create':
        bs = c.objects(kit.make_borehole(w, b) for b in s['b'])
        c.hold('argument', bs)
        kw, obj = {}, bs
        if 'pipes' in s:
            pipes = [kit.make_pipe(w, p, borehole=b)
                     for p, b in zip(s['pipes'], bs)]
            own = {}
            if s.get('own'):
                # flow rates held by the network
                own = {'m_flow_network': np.array(s['mb']), 'cp_f': s['cp']}
            obj = w.networks.Network(bs, c.objects(pipes),
                                     bore_connectivity=c.lst(s['c']), **own)
            st['net'] = obj
            kw = {'m_flow_network': float(s['m']), 'cp_f': s['cp']}
            if own:
                kw = {}
                if c.hostile:
                    own['m_flow_network'] *= 1.7
                    c.scribbled += 1
            elif 'mb' in s:
                kw = {'m_flow_borehole': c.arr(s['mb']), 'cp_f': s['cp']}
        opt = dict(s['opt'])
        if isinstance(opt['nSegments'], list):
            opt['nSegments'] = c.lst(opt['nSegments'])
        if 'ratios' in s:
            opt['segment_ratios'] = seg(c, s['ratios'])
        c.hold('argument', opt)
        st['g'] = w.gfunction.gFunction(
            obj, s['alpha'], time=None if op['t'] is None else c.arr(op['t']),
            method=s['method'], boundary_condition=s['bc'], options=opt,
            **kw)
        if op['t'] is not None:
            return st['g'].gFunc.copy()
        return None
    if 'g' not in st:
        return None
    if op['op'] == 'eval':
        return st['g'].evaluate_g_function(c.arr(op['t']))
    if op['op'] in ('stored', 'plot'):
        if getattr(st['g'], 'gFunc', None) is None or st['g'].time is None:
            return None
        if op['op'] == 'plot':
            return plots.show(st['g'].visualize_g_function)
        return np.array(st['g'].time), np.array(st['g'].gFunc)
    return netq.invoke(w, st['net'], op['q'])


def do_field(w, c, st, plan, op):
    a = plan['spec']
    B = w.borefield.Borefield
    if op['op'] == 'new':
        v = {k: a[k][0] if k in op['scalar'] else c.arr(a[k]) for k in a}
        st['f'] = B(v['H'], v['D'], v['r_b'], v['x'], v['y'],
                    tilt=v['tilt'], orientation=v['orientation'])
        return None
    f = st.get('f')
    if f is None:
        return None
    o = op['op']
    if o == 'read':
        return values(f)
    if o == 'boreholes':
        bs = c.hold('result', f.to_boreholes())
        return tuple(tuple(bore(b).values()) for b in bs)
    if o == 'slice':
        return values(f[op['k'] % len(f):])
    if o == 'add':
        b = w.boreholes.Borehole(99., 3., 0.07, 200., 3.)
        c.hold('argument', b)
        return values(f + b)
    if o == 'eq':
        return (f == f.to_boreholes(),)
    if o == 'duplicates':
        bs = c.hold('argument', f.to_boreholes())
        out = w.boreholes.remove_duplicates(list(bs))
        return (len(out), len(w.boreholes.find_duplicates(list(bs))))
    return w.gfunction.gFunction(
        f, 1e-6, time=c.arr([1e6, 1e8]), method='similarities',
        boundary_condition='UHTR', options={'nSegments': 2}).gFunc.copy()


def values(f):
    return tuple(np.array(getattr(f, k)) for k in (
        'H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation'))


def do_static(w, c, st, plan, op):
    s = plan['pool'][op['k']]
    if 'asarray' not in s:
        return tasks.run_static(w, s, c.arr,
                                lambda x: c.hold('argument', x))
    p, f, P = s['p'], s['f'], w.pipes
    if f in ('thermal_resistances', 'multipole'):
        m = len(p['pos'])
        pos = [c.arr(x) for x in p['pos']] if s['asarray'] \
            else [tuple(x) for x in p['pos']]
        r = c.arr([p['r_out']] * m)
        R = c.arr(s['R'])
        if f == 'thermal_resistances':
            return P.thermal_resistances(pos, r, p['b']['r_b'], p['k_s'],
                                         p['k_g'], R, J=p['J'])
        return P.multipole(pos, r, p['b']['r_b'], p['k_s'], p['k_g'], R, 3.,
                           c.arr(s['q']), max(1, p['J']),
                           x_T=c.arr([0.01, 0.2]), y_T=c.arr([0.03, 0.1]))[:3]
    b1 = c.hold('argument', w.boreholes.Borehole(90., 4., 0.075, 0., 0.))
    b2 = c.hold('argument', w.boreholes.Borehole(77., 3., 0.075, 5., 0.))
    if f == 'fls':
        return w.heat_transfer.finite_line_source(c.arr(s['t']), 1e-6, b1, b2)
    if f == 'flsv':
        return w.heat_transfer.finite_line_source_vectorized(
            c.arr(s['t']), 1e-6, c.arr([0.075, 5.]), c.arr([90., 90.]),
            c.arr([4., 4.]), c.arr([77., 77.]), c.arr([3., 3.]))
    if f == 'segments':
        segs = b1.segments(s['n'], segment_ratios=c.arr(s['ratios']))
        c.hold('result', segs)
        return tuple(tuple(bore(b).values()) for b in segs)
    # a coaxial pipe built from the caller's arrays of radii
    key = ('pipe', op['k'])
    if key not in st:
        st[key] = P.Coaxial(
            (0., 0.), c.arr([0.0221, 0.0487]), c.arr([0.025, 0.055]),
            w.boreholes.Borehole(100., 4., 0.075, 0., 0.), p['k_s'],
            p['k_g'], 0.1, 0.05, J=p['J'])
    st[key].update_thermal_resistances(0.1, p['R_fp'])
    return st[key].coefficients_outlet_temperature(0.4, 4000., 2)


# ---------------------------------------------------------------------------

def run_script(plan, caller):
    w = World()
    st, out = {}, []
    do = globals()['do_' + plan['kind']]
    ctx = caller.ctx
    if plan.get('refill'):
        caller.refill = {}
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'scribble':
            if caller.hostile:
                caller.scribble(op)
                caller.verify(i, 'overwriting a buffer')
            out.append(None)
            continue
        caller.reuse = op.get('reuse', False)
        caller.nth = {}
        got = kit.call(do, w, caller, st, plan, op)
        out.append(kit.frozen(got) if not isinstance(got, kit.Raised)
                   else got)
        if caller.hostile:
            what = plan['pool'][op['k']]['f'] if 'pool' in plan \
                and 'k' in op else op['op']
            # the answer itself becomes the caller's
            caller.verify(i, f'{plan["kind"]} {what}')
            if not isinstance(got, kit.Raised):
                caller.hold('result', got)
            ctx.state(plan['kind'], what, caller.scribbled > 0)
            ctx.sim_time += 3600.
    w.close()
    return out


def execute(plan, ctx):
    quiet = Caller(ctx, False)
    want = run_script(plan, quiet)
    got = run_script(plan, Caller(ctx, True))
    n = 1 if plan.get('refill') else 0
    for i, (op, a, b) in enumerate(zip(plan['ops'], got, want)):
        if op['op'] == 'scribble':
            n += 1
            continue
        ctx.event(i, op['op'], repr(a) if isinstance(a, kit.Raised) else a)
        if b is None and a is None:
            continue
        ctx.count('answers compared')
        if n:
            ctx.nontrivial = True
        r1, r2 = isinstance(a, kit.Raised), isinstance(b, kit.Raised)
        if r1 or r2:
            ctx.count('calls raising for both callers', r1 and r2)
            ctx.check(r1 == r2, 'answer-follows-buffers',
                      lambda: f'op {i} {plan["kind"]} {op["op"]}: {a!r}, '
                      f'careful caller: {b!r}')
            continue
        d = kit.differs(a, b, rtol=1e-9)
        ctx.check(d is None, 'answer-follows-buffers',
                  lambda: f'op {i} {plan["kind"]} {op["op"]} '
                  f'{plan["pool"][op["k"]]["f"] if "pool" in plan and "k" in op else ""}'
                  f': {d} from what the careful caller gets')
