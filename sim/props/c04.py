"""C04  Parties on different threads, each with its own objects, do not
influence each other whatever the interleaving."""
import math

from .. import kit, sched, tasks
from ..world import World

ID = 'C04'
RUNS = {'quick': 3200, 'thorough': 50000}
RULE = ('a run is one interleaving of 2-4 threads inside the package, each '
        'executing its own script on its own objects (near-copy pipes, '
        'networks, load aggregation, g-functions, stateless functions); the '
        'scheduler switches threads at planned line events, half of the '
        'time at lines that touch data shared by all '
        'threads of the process; non-trivial: at '
        'least one switch taken while a thread was inside the package; '
        'distinct by event digest (includes the switches taken)')
STATE_MEASURE = ('pairs of successive context switches, each identified by '
                 'the function the preempted thread was in and the kind of '
                 'party that took over')
REAL = ['all modules of pygfunction', 'Python threads', 'numpy', 'scipy']
STUBS = ['thread scheduler (baton, planned switches)', 'locks']
LISTS = ('switches', 'hot', 'parties')


def generate(rng, tier):
    base = kit.gen_pipe(rng)
    heavy = rng.random() < 0.15

    def gen(rng, base):
        r = rng.random()
        if r < 0.62:
            spec = base if rng.random() < 0.25 else \
                tasks.perturb_pipe(rng, base)[0]
            t = tasks.gen_pipe_task(rng, spec, n=rng.randint(1, 4))
        elif r < 0.8:
            t = tasks.gen_static_task(rng, base, n=rng.randint(1, 3))
        elif r < 0.9:
            t = tasks.gen_agg_task(rng, n=rng.randint(2, 5))
        elif r < 0.96 or not heavy:
            t = tasks.gen_network_task(rng, n=rng.randint(1, 2))
        else:
            t = tasks.gen_gfunc_task(rng, n=1)
        return t
    horizon = rng.choice([120, 600, 2500, 8000])
    style = rng.choice(['few', 'few', 'many', 'bursts'])
    if rng.random() < 0.45:
        # the same function for the first time on all threads at once
        first = {'type': 'static', 'steps': [
            tasks.gen_static_step(rng, base, f=rng.choice(tasks.STATIC))
            for _ in range(rng.choice([1, 1, 2]))]}
        parties = [first] + [tasks.twin(rng, first, base)
                             for _ in range(rng.choice([1, 1, 2, 3]))]
        horizon = rng.choice([8, 25, 80, 300])
        style = rng.choice(['few', 'few', 'bursts'])
    elif rng.random() < 0.25:
        # unlike calculations of one kind
        parties = []
        for _ in range(rng.choice([2, 3, 4, 5])):
            p = kit.gen_pipe(rng, kind=rng.choice(['single', 'multi']))
            p['J'] = rng.choice([0, 1, 1, 2, 3, 4, 5])
            parties.append({'type': 'static', 'steps': [
                tasks.gen_static_step(rng, p, f=rng.choice(
                    ['thermal_resistances', 'multipole']))
                for _ in range(rng.choice([1, 2, 2]))]})
            for t in parties[-1]['steps'][1:]:
                t['p'] = dict(p, J=rng.choice([1, 2, 3, 4]))
    else:
        parties = tasks.gen_parties(rng, base, rng.randint(2, 4), gen)
    sw = []
    hot = []
    if rng.random() < 0.5:
        # at the points at which data of the whole process are touched
        p = rng.choice([0.05, 0.15, 0.4])
        end = rng.choice([12, 40, 150])
        hot = [[i, rng.randint(0, 5)] for i in range(1, end)
               if rng.random() < p]
        style = rng.choice(['few', 'none', 'none', 'many'])
    if style == 'none':
        pts = []
    elif style == 'few':
        pts = [int(math.exp(rng.uniform(0., math.log(horizon))))
               for _ in range(rng.randint(1, 6))]
    elif style == 'many':
        k = rng.choice([2, 5, 20])
        pts, x = [], 0
        for _ in range(250):
            x += rng.randint(1, 2 * k)
            pts.append(x)
    else:
        pts = []
        for _ in range(rng.randint(2, 8)):
            a = rng.randint(1, horizon)
            pts += [a + rng.randint(0, 12) for _ in range(6)]
    for p in sorted(set(pts)):
        sw.append([p, rng.randint(0, 5)])
    return {'parties': parties, 'switches': sw, 'hot': hot}


def execute(plan, ctx):
    if not plan['parties']:
        return
    sched.install_locks()
    try:
        w = World()
        ts = [tasks.Task(w, d) for d in plan['parties']]

        def body(t):
            return lambda: [kit.frozen(kit.call(t.step, i))
                            for i in range(len(t))]
        hot = plan.get('hot', ())
        s = sched.Scheduler(
            [body(t) for t in ts], plan['switches'], hot=hot,
            shared=sched.Shared(w.modules()) if hot else None)
        results = s.run()
    finally:
        sched.uninstall_locks()
    ctx.count('context switches inside the package', len(s.taken))
    ctx.count('preemption points', s.point)
    ctx.count('points that touch shared data', s.hot_point)
    ctx.sim_time += s.point * 1e-6
    if s.taken:
        ctx.fault('preemption', len(s.taken))
    ctx.event('switches', s.taken)
    for name, a, b in s.where:
        ctx.state(name, plan['parties'][b]['type'])
    w.close()
    for who, d in enumerate(plan['parties']):
        if s.errors[who] is not None:
            raise s.errors[who]
        wf = World()
        alone = tasks.Task(wf, d)
        for i, g in enumerate(results[who]):
            want = kit.frozen(kit.call(alone.step, i))
            ctx.count('answers compared')
            ctx.event(who, i, repr(g) if isinstance(g, kit.Raised) else g)
            what = f'thread {who} ({d["type"]}) step {i}'
            if isinstance(g, kit.Raised) or isinstance(want, kit.Raised):
                ctx.check(isinstance(g, kit.Raised)
                          == isinstance(want, kit.Raised),
                          'interference-between-threads',
                          lambda: f'{what}: {g!r}, alone: {want!r}')
                continue
            df = kit.differs(g, want,
                             rtol=tasks.precision(d, d['steps'][i]))
            ctx.check(df is None, 'interference-between-threads',
                      lambda: f'{what}: {df} (relative to the same script '
                      f'alone)')
        wf.close()


def simplify(plan):
    for i, t in enumerate(plan['parties']):
        n = len(t['steps'])
        for j in range(n - 1, 0, -1):
            ps = list(plan['parties'])
            ps[i] = dict(t, steps=t['steps'][:j] + t['steps'][j + 1:])
            yield dict(plan, parties=ps)
