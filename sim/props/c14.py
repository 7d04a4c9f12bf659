"""C14  Interrupts, clocks and consoles never change a g-function."""
import sys

import numpy as np

from .. import faults, gf, kit, netq
from ..world import Clock, Console, World

ID = 'C14'
RUNS = {'quick': 1000, 'thorough': 24000}
RULE = ('a run is a history of 2-6 evaluations of a g-function, each under a '
        'simulated clock (steady, frozen, backwards, jumping), with progress '
        'messages on or off, on a console that may fail at any message, and '
        'possibly stopped at any instant by an interrupt or a failing '
        'routine; values are compared with those of a new object in an '
        'undisturbed new process; non-trivial: a fault fired or the clock '
        'misbehaved; distinct by event digest')
REAL = ['pygfunction.gfunction', 'pygfunction.solvers',
        'pygfunction.networks', 'pygfunction.pipes',
        'pygfunction.heat_transfer', 'numpy', 'scipy']
STUBS = ['clock (time module)', 'console (sys.stdout)',
         'delivery of interrupts', 'failing numpy routines',
         'process start (private re-execution of the package per world)']
STATE_MEASURE = ('pairs of successive (solver, boundary condition, kind of '
                 'disturbance, function interrupted)')
simplify = gf.simplify
CONSOLE_ERRORS = {'BrokenPipeError': BrokenPipeError, 'OSError': OSError,
                  'KeyboardInterrupt': KeyboardInterrupt}


def gen_env(rng, disp):
    e = {'clock': rng.choice(['steady', 'frozen', 'backwards', 'steady']),
         'jumps': [[rng.randint(1, 10), rng.choice([-1e6, 3600., 1e9, -5.])]
                   for _ in range(rng.choice([0, 0, 1, 2]))],
         'fail_at': None, 'exc': rng.choice(sorted(CONSOLE_ERRORS)),
         'fault': None}
    r = rng.random()
    if disp and r < 0.35:
        e['fail_at'] = rng.randint(1, 24)
    elif r < 0.8:
        e['fault'] = faults.gen(rng, rng.choice([200, 1500, 6000]), 80)
    return e


def generate(rng, tier):
    disp = rng.random() < 0.6
    s = gf.gen_spec(rng, disp)
    s['opt']['profiles'] = rng.random() < 0.6
    ops = []
    t = None
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        t = gf.near_times(rng, t) if t and rng.random() < 0.5 \
            else gf.gen_times(rng)
        if r < 0.12:
            ops.append({'op': 'build', 't': t if rng.random() < 0.6 else None,
                        'env': gen_env(rng, disp)})
        elif r < 0.2 and s['opt']['profiles']:
            ops.append({'op': 'plot', 'what': rng.choice(gf.PLOTS[1:])})
        elif r < 0.3 and 'pipes' in s:
            net = {'pipes': s['pipes'], 'c': s['c']}
            ops.append({'op': 'net', 'q': netq.gen_query(
                rng, net, netq.gen_args(rng, net))})
        else:
            ops.append({'op': 'eval', 't': t, 'env': gen_env(rng, disp),
                        'retry': rng.random() < 0.6})
            if s['opt']['profiles'] and rng.random() < 0.35:
                if rng.random() < 0.6:
                    ops[-1]['retry'] = False
                ops.append({'op': 'plot', 'what': rng.choice(gf.PLOTS[1:])})
    return {'spec': s, 'ops': ops}


class Env:
    """Clock, console and faults of one operation."""

    def __init__(self, e):
        self.clock = Clock(e['clock'], e['jumps'])
        self.console = Console(e['fail_at'], CONSOLE_ERRORS[e['exc']])
        self.inj = faults.make(e['fault'])
        self.e = e

    def run(self, f, *a):
        old = sys.stdout
        sys.stdout = self.console
        self.clock.install()
        try:
            with self.inj:
                return kit.call(f, *a)
        finally:
            Clock.uninstall()
            sys.stdout = old

    def record(self, ctx):
        if self.inj.fired:
            ctx.fault(faults.name(self.e['fault']))
        if self.console.fired:
            ctx.fault('console failure (' + self.e['exc'] + ')')
        if self.clock.reads and self.e['clock'] != 'steady':
            ctx.fault('clock ' + self.e['clock'])
        if self.clock.fired:
            ctx.fault('clock jump', self.clock.fired)
        ctx.sim_time += min(86400., abs(self.clock.now - 1000.))

    @property
    def disturbed(self):
        return self.inj.fired or self.console.fired


def reference(s, t):
    """Values of a new object in an undisturbed process."""
    w = World()
    g = gf.build(w, dict(s, opt=dict(s['opt'], disp=False)))
    y = np.array(g.evaluate_g_function(np.array(t)))
    w.close()
    return y


def same_state(a, b):
    return (a is None) == (b is None) and (a is None or all(
        np.array_equal(x, y) for x, y in zip(a, b)))


def check_values(ctx, i, s, t, y, what, cache):
    k = tuple(t)
    if k not in cache:
        cache[k] = reference(s, t)
    d = kit.differs(y, cache[k], rtol=1e-7)
    ctx.count('evaluations compared')
    ctx.check(d is None, 'values', lambda: f'op {i}: {what} at {t}: {d} '
              'from the undisturbed ones')


def execute(plan, ctx):
    s = plan['spec']
    w = World()
    field = gf.build_field(w, s)
    holes = gf.held(field)
    key = (s['method'], s['bc'])
    cache = {}
    quiet = sys.stdout
    sys.stdout = Console()
    g = gf.build(w, s, field)
    settings = kit.process_settings()
    for i, op in enumerate(plan['ops']):
        k = op['op']
        now = kit.process_settings()
        ctx.check(now == settings, 'settings-left-changed', lambda: f'op '
                  f'{i - 1} changed ' + kit.changed_settings(settings, now))
        if k == 'build':
            env = Env(op['env'])
            out = env.run(gf.build, w, s, field, op['t'])
            env.record(ctx)
            ctx.event(i, 'build', env.inj.fired, env.console.fired)
            ctx.state('build', *key, getattr(env.inj, 'where', None))
            if isinstance(out, kit.Raised):
                ctx.check(env.disturbed, 'raised', lambda: f'op {i}: '
                          f'construction {out!r}: {out.exc}')
            else:
                g = out
                if op['t'] is not None:
                    check_values(ctx, i, s, op['t'], np.array(g.gFunc),
                                 'values', cache)
        elif k == 'eval':
            env = Env(op['env'])
            before = gf.stored(g)
            out = env.run(g.evaluate_g_function, np.array(op['t']))
            env.record(ctx)
            ctx.event(i, 'eval', env.inj.fired, env.console.fired,
                      repr(out) if isinstance(out, kit.Raised) else out)
            ctx.state('eval', *key, env.console.fired > 0,
                      getattr(env.inj, 'where', None))
            now = gf.stored(g)
            if isinstance(out, kit.Raised):
                ctx.check(env.disturbed, 'raised', lambda: f'op {i}: '
                          f'evaluation {out!r}: {out.exc}')
                if not same_state(before, now):
                    # then it must be the complete new answer
                    ctx.check(now is not None and np.array_equal(
                        now[0], np.array(op['t'])), 'torn-times',
                        lambda: f'op {i}: after a stopped evaluation at '
                        f'{op["t"]} the object holds times '
                        f'{None if now is None else now[0]}, before '
                        f'{None if before is None else before[0]}')
                    check_values(ctx, i, s, op['t'], now[1],
                                 'values held after a stopped evaluation',
                                 cache)
                if op['retry']:
                    y = g.evaluate_g_function(np.array(op['t']))
                    check_values(ctx, i, s, op['t'], y, 'values of the '
                                 'repeated evaluation', cache)
                    ctx.count('repeated evaluations')
            else:
                check_values(ctx, i, s, op['t'], out, 'values', cache)
                ctx.check(now is not None and np.array_equal(
                    now[0], np.array(op['t'])) and np.array_equal(
                    now[1], out), 'stored', lambda: f'op {i}: object holds '
                    f'times {now[0]} after an evaluation at {op["t"]}')
        elif k == 'plot':
            st = gf.stored(g)
            if st is not None:
                got = kit.frozen(gf.plot(g, op['what']))
                wf = World()
                h = gf.build(wf, s)
                h.evaluate_g_function(st[0])
                want = gf.plot(h, op['what'])
                wf.close()
                d = kit.differs(got, want)
                ctx.count('plots compared')
                ctx.check(d is None, 'plot', lambda: f'op {i}: plot of '
                          f'{op["what"]}: {d} from that of an undisturbed '
                          'object')
        elif k == 'net' and field[1] is not None:
            net = {'pipes': s['pipes'], 'c': s['c']}
            out = kit.frozen(netq.run(w, field[1], op['q']))
            want = netq.fresh_answer(World, net, op['q'])
            ctx.count('network answers compared')
            r = [isinstance(x, kit.Raised) for x in (out, want)]
            d = kit.differs(out, want) if not any(r) else \
                None if all(r) else f'{out!r} instead of {want!r}'
            ctx.check(d is None, 'network', lambda: f'op {i}: network '
                      f'answers {d} after interrupted evaluations')
        ctx.check(gf.held(field) == holes, 'boreholes-changed', lambda: f'op '
                  f'{i} ({k}) changed the boreholes or the network')
    t = next((op['t'] for op in plan['ops'][::-1] if op.get('t')), [1e7])
    y = g.evaluate_g_function(np.array(t))
    sys.stdout = quiet
    check_values(ctx, len(plan['ops']), s, t, y, 'values at the end', cache)
    w.close()
