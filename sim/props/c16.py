"""C16  A simulation restored from a checkpoint continues identically."""
import copy

import numpy as np

from .. import gf, kit, tasks
from ..world import PREFIX, World

ID = 'C16'
RUNS = {'quick': 2400, 'thorough': 40000}
RULE = ('a run is an interleaving of the scripts of 1-4 parties (pipes, '
        'networks, load aggregation schemes, bore fields, g-functions) with '
        'checkpoints (pickle), crashes after which a new process restores '
        'the last checkpoint and repeats what was lost, and forks (deepcopy) '
        'that go their own way; every answer is compared with that of the '
        'same script run alone without interruption in a new process; '
        'non-trivial: an answer compared after a restart or fork; distinct '
        'by event digest')
REAL = ['all modules of pygfunction', 'numpy', 'scipy', 'pickle', 'copy']
STUBS = ['process start and death (private re-execution of the package per '
         'world, only pickled state survives)',
         'order in which the parties act (seeded)']
STATE_MEASURE = 'pairs of successive (kind of event, type of party)'
LISTS = ('script',)


def gen_field_task(rng):
    n = rng.choice([1, 2, 3, 5])
    f = {k: [kit.uni(rng, a, b, 4) for _ in range(n)] for k, a, b in (
        ('H', 50., 200.), ('D', 1., 6.), ('r_b', 0.06, 0.09),
        ('x', 0., 30.), ('y', 0., 30.))}
    f['x'] = [x + 40. * i for i, x in enumerate(f['x'])]
    if rng.random() < 0.4:
        f['tilt'] = [kit.uni(rng, 0., 0.4, 3) for _ in range(n)]
        f['orientation'] = [kit.uni(rng, 0., 6., 3) for _ in range(n)]
    else:
        f['tilt'] = f['orientation'] = [0.] * n
    steps = [{'f': rng.choice(['values', 'boreholes', 'slice', 'add',
                               'self-eq', 'g', 'distance'])}
             for _ in range(rng.randint(1, 5))]
    return {'type': 'field', 'spec': f, 'steps': [{'create': 1}] + steps}


def gen_gf_task(rng):
    s = gf.gen_spec(rng)
    steps = []
    for _ in range(rng.randint(1, 4)):
        if steps and rng.random() < 0.25 and s['opt']['profiles']:
            steps.append({'plot': rng.choice(gf.PLOTS)})
        elif steps and rng.random() < 0.3:
            steps.append({'stored': 1})
        else:
            steps.append({'t': gf.gen_times(rng)})
    return {'type': 'gf', 'spec': s, 'steps': [{'create': 1}] + steps}


def gen_agg(rng):
    t = tasks.gen_agg_task(rng)
    return dict(t, steps=tasks.split_steps(rng, t['steps']))


class Party(tasks.Task):
    def _field(self, s):
        w = self.w
        if 'create' in s:
            f = self.cur
            self.obj = w.borefield.Borefield(
                *(np.array(f[k]) for k in ('H', 'D', 'r_b', 'x', 'y')),
                tilt=np.array(f['tilt']),
                orientation=np.array(f['orientation']))
            return None
        o, f = s['f'], self.obj
        if o == 'boreholes':
            return tuple(gf.bore(b) for b in f.to_boreholes())
        if o == 'slice':
            return field_values(f[len(f) // 2:])
        if o == 'add':
            return field_values(f + w.boreholes.Borehole(
                80., 3., 0.07, 900., 3.))
        if o == 'self-eq':
            return (bool(f == f.to_boreholes()), len(f))
        if o == 'distance':
            bs = f.to_boreholes()
            return (bs[0].distance(bs[-1]), bs[0].is_vertical())
        if o == 'g':
            return w.gfunction.gFunction(
                f, 1e-6, time=np.array([1e6, 1e8]), method='similarities',
                boundary_condition='UHTR', options={'nSegments': 2}).gFunc
        return field_values(f)

    def _gf(self, s):
        if 'create' in s:
            self.obj = gf.build(self.w, self.cur)
            return None
        if 'plot' in s:
            return gf.plot(self.obj, s['plot'])
        if 'stored' in s:
            return gf.stored(self.obj)
        return self.obj.evaluate_g_function(np.array(s['t']))


def field_values(f):
    return tuple(np.array(getattr(f, k)) for k in (
        'H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation'))


GEN = {'pipe': lambda rng, spec=None: tasks.gen_pipe_task(
           rng, spec, n=rng.randint(2, 6)),
       'network': lambda rng, spec=None: tasks.gen_network_task(
           rng, spec, n=rng.randint(2, 5)),
       'agg': lambda rng, spec=None: gen_agg(rng),
       'field': lambda rng, spec=None: gen_field_task(rng),
       'gf': lambda rng, spec=None: gen_gf_task(rng)}


def generate(rng, tier):
    parties = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        r = rng.random()
        k = 'pipe' if r < 0.35 else 'network' if r < 0.6 else \
            'agg' if r < 0.8 else 'field' if r < 0.88 else 'gf'
        parties.append(GEN[k](rng))
    script = []
    for i, t in enumerate(parties):
        script += [['step', i]] * len(t['steps'])
    rng.shuffle(script)
    for _ in range(rng.choice([1, 2, 2, 3])):
        script.insert(rng.randint(1, len(script)), ['checkpoint',
                                                    rng.random() < 0.5,
                                                    rng.choice([2, 4, 5])])
    for _ in range(rng.choice([0, 1, 1, 2])):
        script.insert(rng.randint(1, len(script)), ['crash'])
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(len(parties))
        t = parties[i]
        alt = GEN[t['type']](rng, t['spec'])['steps'][1:]
        if t['type'] == 'agg':
            alt = [{'Q': [kit.uni(rng, -500., 500., 3)
                          for _ in range(t['spec']['ns'])]}
                   for _ in range(rng.randint(1, 3))]
            alt = [{'T': 1}] * rng.randint(0, 1) + tasks.split_steps(rng, alt)
        elif t['type'] == 'gf':
            alt = [{'t': gf.gen_times(rng)}]
        script.insert(rng.randint(1, len(script)),
                      ['fork', i, alt, rng.random() < 0.5])
    for _ in range(rng.choice([0, 1, 1])):
        script.insert(rng.randint(1, len(script)), [
            'ruin', rng.randrange(len(parties)), rng.random() < 0.5,
            rng.choice([0.5, 1.25, 3.])])
    # whatever was lost in a crash is repeated at the end
    return {'parties': parties, 'script': script}


def alone(d, steps):
    w = World()
    p = Party(w, dict(d, steps=steps))
    out = [kit.frozen(kit.call(p.step, j)) for j in range(len(steps))]
    w.close()
    return out


def compare(ctx, what, got, want, kind):
    ctx.count('answers compared')
    r = [isinstance(x, kit.Raised) for x in (got, want)]
    d = kit.differs(got, want) if not any(r) else \
        None if all(r) else f'{got!r} instead of {want!r}' + (
            f' ({got.exc})' if r[0] else '')
    ctx.check(d is None, kind, lambda: f'{what}: {d} (uninterrupted)')


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.w = World()
        self.ps = [Party(self.w, d) for d in plan['parties']]
        self.at = [0] * len(self.ps)
        self.saved = None
        self.want = [None] * len(self.ps)
        self.touched = False

    def reference(self, i):
        if self.want[i] is None:
            d = self.plan['parties'][i]
            self.want[i] = alone(d, d['steps'])
        return self.want[i]

    def step(self, i):
        if i >= len(self.ps) or self.at[i] >= len(self.ps[i]):
            return
        j = self.at[i]
        got = kit.frozen(kit.call(self.ps[i].step, j))
        self.at[i] += 1
        t = self.plan['parties'][i]['type']
        self.ctx.event('step', i, j, repr(got) if isinstance(got, kit.Raised)
                       else got)
        self.ctx.state('step', t)
        self.ctx.sim_time += 60.
        if self.touched:
            self.ctx.nontrivial = True
        compare(self.ctx, f'party {i} ({t}) step {j}', got,
                self.reference(i)[j], 'continuation')

    def must(self, kind, what, f, *a):
        """Saving, restoring and forking valid objects never fails."""
        out = kit.call(f, *a)
        self.ctx.check(not isinstance(out, kit.Raised), kind,
                       lambda: f'{what}: {out!r}: {out.exc}')
        return out

    def checkpoint(self, together, protocol=4):
        """What is durable: pickles and plain numbers."""
        meta = [(p.k, copy.deepcopy(p.cur), a)
                for p, a in zip(self.ps, self.at)]
        objs = [p.obj for p in self.ps]
        if together:
            blobs = self.must('cannot-save', 'all objects', self.w.dump,
                              objs, protocol)
        else:
            blobs = [self.must(
                'cannot-save', f'party {i} ({p.d["type"]})', self.w.dump,
                p.obj, protocol) for i, p in enumerate(self.ps)]
        self.saved = (together, blobs, meta)
        self.ctx.count('checkpoints')
        self.ctx.state('checkpoint', together)

    def crash(self):
        ctx = self.ctx
        self.w.close()
        self.w = World()
        self.ps = [Party(self.w, d) for d in self.plan['parties']]
        self.at = [0] * len(self.ps)
        ctx.fault('crash and restart' + ('' if self.saved else
                                         ' without checkpoint'))
        ctx.state('crash', self.saved is not None)
        if self.saved is None:
            return
        self.touched = True
        together, blobs, meta = self.saved
        objs = self.must('cannot-restore', 'all objects', self.w.load,
                         blobs) if together else [
            self.must('cannot-restore', f'party {i}', self.w.load, b)
            for i, b in enumerate(blobs)]
        for n, (p, o, (k, cur, a)) in enumerate(zip(self.ps, objs, meta)):
            p.obj, p.k, p.cur = o, k, copy.deepcopy(cur)
            self.at[n] = a

    def ruin(self, i, copied, f):
        """One of two copies is taken apart by its owner; the other one goes
        on."""
        if i >= len(self.ps) or self.at[i] == 0:
            return
        p = self.ps[i]
        if p.obj is None:
            return
        a = p.obj
        b = self.must('cannot-fork', f'party {i} ({p.d["type"]})',
                      copy.deepcopy, a)
        p.obj, victim = (b, a) if copied else (a, b)
        ruin(victim, f, {})
        self.touched = True
        self.ctx.fault('copy overwritten')
        self.ctx.state('ruin', p.d['type'])
        self.ctx.event('ruin', i, copied)

    def fork(self, i, alt, first):
        """A copy goes its own way; neither notices the other."""
        if i >= len(self.ps) or self.at[i] == 0:
            return
        d = self.plan['parties'][i]
        p = self.ps[i]
        c = Party(self.w, dict(d, steps=alt))
        c.obj = self.must('cannot-fork', f'party {i} ({d["type"]})',
                          copy.deepcopy, p.obj)
        c.k, c.cur = p.k, copy.deepcopy(p.cur)
        self.ctx.fault('fork')
        self.ctx.state('fork', d['type'])
        self.touched = True
        if d['type'] == 'agg':
            # stay within the simulation period
            alt = alt[:max(0, d['spec']['nt'] - p.k - 1)]
        n = self.at[i]
        if not first:
            self.step(i)                     # the original acts first
        want = alone(d, d['steps'][:n] + alt)[n:]
        for j in range(len(alt)):
            got = kit.frozen(kit.call(c.step, j))
            self.ctx.event('fork', i, j)
            self.ctx.nontrivial = True
            compare(self.ctx, f'copy of party {i} ({d["type"]}) made after '
                    f'step {n}, its step {j}', got, want[j], 'fork')


def ruin(x, f, seen):
    """Overwrite everything the user of an object can reach through public
    attributes."""
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.flat:
                ruin(y, f, seen)
        elif x.flags.writeable and x.dtype.kind == 'f':
            x *= f
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            ruin(y, f, seen)
        if isinstance(x, list) and x and all(
                isinstance(y, float) for y in x):
            x[:] = [y * f for y in x]
        return
    if isinstance(x, dict):
        for k in sorted(k for k in x if isinstance(k, str)):
            ruin(x[k], f, seen)
            if isinstance(x[k], float):
                x[k] *= f
        return
    if not type(x).__module__.startswith(PREFIX):
        return
    for k in sorted(getattr(x, '__dict__', ())):
        if k.startswith('_'):
            continue
        v = x.__dict__[k]
        if isinstance(v, float):
            x.__dict__[k] = v * f
        else:
            ruin(v, f, seen)


def execute(plan, ctx):
    sim = Sim(plan, ctx)
    for e in plan['script']:
        getattr(sim, e[0])(*e[1:])
    # progress: once crashes stop, every script completes
    for i in range(len(sim.ps)):
        while sim.at[i] < len(sim.ps[i]):
            sim.step(i)
    sim.w.close()


def simplify(plan):
    for i, t in enumerate(plan['parties']):
        n = len(t['steps'])
        if n > 1:
            ps = list(plan['parties'])
            ps[i] = dict(t, steps=t['steps'][:-1])
            yield dict(plan, parties=ps)
        if n > 2:
            ps = list(plan['parties'])
            ps[i] = dict(t, steps=t['steps'][:1] + t['steps'][2:])
            yield dict(plan, parties=ps)
