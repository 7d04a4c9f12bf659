"""C03  Unrelated objects in one process do not influence each other."""
import os
import random
import sys
import warnings

import numpy as np

from .. import kit, tasks
from ..world import World

ID = 'C03'
RUNS = {'quick': 1600, 'thorough': 40000}
RULE = ('a run is one interleaving of 2-8 parties (scripts that own their '
        'pipes, networks, load aggregation schemes, g-functions or call '
        'stateless functions) in one process, many of them near copies of '
        'each other; every answer is compared with that of the same script '
        'alone in a new process; non-trivial: at least two parties '
        'interleaved; distinct by event digest')
REAL = ['all modules of pygfunction', 'numpy', 'scipy', 'scp']
STUBS = ['process start (private re-execution of the package per world)',
         'order in which the parties act (seeded)']
LISTS = ('order', 'parties')


def generate(rng, tier):
    base = kit.gen_pipe(rng)
    parties = tasks.gen_parties(
        rng, base, rng.randint(2, 8 if tier == 'thorough' else 6))
    order = []
    for i, t in enumerate(parties):
        order += [i] * len(t['steps'])
    drop = rng.random() < 0.6
    if rng.random() < (0.6 if drop else 0.9):
        rng.shuffle(order)
    env = {'err': {k: rng.choice(['warn', 'warn', 'ignore', 'raise'])
                   for k in rng.sample(['divide', 'over', 'under', 'invalid'],
                                       rng.randint(0, 2))},
           'digits': rng.choice([8, 8, 3, 12]),
           'seed': rng.randrange(1000),
           'filter': rng.choice([None, 'error', 'ignore', 'once'])}
    return {'parties': parties, 'order': order, 'env': env,
            'drop': drop}


class Settings:
    """The process-wide settings chosen by the program."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        e = self.env
        self.old = (np.geterr(), np.get_printoptions(), random.getstate(),
                    np.random.get_state())
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        self.sink = np.seterrcall(None)
        np.seterr(**e.get('err', {}))
        np.set_printoptions(precision=e.get('digits', 8))
        random.seed(e.get('seed', 0))
        np.random.seed(e.get('seed', 0))
        if e.get('filter'):
            warnings.filterwarnings(e['filter'], message='of this program')

    def __exit__(self, *a):
        np.seterr(**self.old[0])
        np.seterrcall(self.sink)
        np.set_printoptions(**self.old[1])
        random.setstate(self.old[2])
        np.random.set_state(self.old[3])
        self.w.__exit__(*a)
        return False


def label(step):
    """What a step does."""
    if 'f' in step:
        return step['f']
    if 'q' in step:
        return step['q']['f']
    return next(iter(step))


def settings():
    """Process-wide settings that calculations depend on."""
    return kit.process_settings() + (os.getcwd(), sys.getrecursionlimit())


def execute(plan, ctx):
    with Settings(plan.get('env', {})):
        run(plan, ctx)


def run(plan, ctx):
    before = settings()
    w = World()
    ts = [tasks.Task(w, d) for d in plan['parties']]
    at = [0] * len(ts)
    got = [[] for _ in ts]
    last = None
    for who in plan['order']:
        if who >= len(ts) or at[who] >= len(ts[who]):
            continue
        t = ts[who]
        out = kit.frozen(kit.call(t.step, at[who]))
        got[who].append(out)
        at[who] += 1
        ctx.sim_time += 60.
        ctx.event(who, at[who], t.d['type'],
                  repr(out) if isinstance(out, kit.Raised) else out)
        if last is not None and last != who:
            ctx.count('party switches')
            ctx.nontrivial = True
        ctx.state(t.d['type'], label(t.d['steps'][at[who] - 1]), last != who)
        last = who
        now = settings()
        ctx.check(now == before, 'process-settings-changed',
                  lambda: f'party {who} ({t.d["type"]}) changed '
                  + kit.changed_settings(before, now))
        if at[who] == len(t) and plan.get('drop'):
            # its objects go; their memory is used for those of others
            t.obj = None
            ctx.count('parties gone')
    w.close()
    for who, d in enumerate(plan['parties']):
        wf = World()
        alone = tasks.Task(wf, d)
        for i, g in enumerate(got[who]):
            want = kit.frozen(kit.call(alone.step, i))
            ctx.count('answers compared')
            what = f'party {who} ({d["type"]}) step {i}'
            if isinstance(g, kit.Raised) or isinstance(want, kit.Raised):
                ctx.check(isinstance(g, kit.Raised)
                          == isinstance(want, kit.Raised), 'interference',
                          lambda: f'{what}: {g!r}, alone: {want!r}')
                continue
            df = kit.differs(g, want,
                             rtol=tasks.precision(d, d['steps'][i]))
            ctx.check(df is None, 'interference',
                      lambda: f'{what}: {df} (relative to the same script '
                      f'alone)')
        wf.close()


def simplify(plan):
    for i, t in enumerate(plan['parties']):
        n = len(t['steps'])
        if n > 1:
            ps = list(plan['parties'])
            ps[i] = dict(t, steps=t['steps'][:-1])
            yield dict(plan, parties=ps)
        if n > 2:
            ps = list(plan['parties'])
            ps[i] = dict(t, steps=t['steps'][:1] + t['steps'][2:])
            yield dict(plan, parties=ps)
    srt = sorted(plan['order'])
    if srt != plan['order']:
        yield dict(plan, order=srt)
