"""C12  Revised, rejected or aborted loads leave no trace in aggregation."""
import numpy as np

from .. import agg, faults, kit
from ..world import World

ID = 'C12'
RUNS = {'quick': 5000, 'thorough': 100000}
RULE = ('a run is one load history of 2-30 steps of one of the three schemes '
        'with trial loads, rejected calls, and calls stopped by injected '
        'interrupts or failing routines; the answers after the last accepted '
        'load of each step are compared with those of a new object, in a new '
        'process, that was given the accepted loads only; non-trivial: a '
        'trial, rejection or fault before a compared answer; distinct by '
        'event digest')
REAL = ['pygfunction.load_aggregation', 'pygfunction.utilities', 'numpy']
STUBS = ['the controller (loads, order of calls)', 'delivery of interrupts',
         'failing numpy routines',
         'process start (private re-execution of the package per world)']
STATE_MEASURE = 'pairs of successive (scheme, kind of disturbance, outcome)'
LISTS = ('steps',)
simplify = agg.simplify
RTOL = 1e-9


def gen_bad(rng, ns):
    r = rng.random()
    if r < 0.3:
        return {'v': [kit.uni(rng, -9e3, 9e3, 1) for _ in range(ns + 1)]}
    if r < 0.55 and ns > 2:
        return {'v': [kit.uni(rng, -9e3, 9e3, 1) for _ in range(ns - 1)]}
    if r < 0.62 and ns > 1:
        return {'v': [[kit.uni(rng, -9e3, 9e3, 1)] for _ in range(ns)]}
    if r < 0.7:
        return {'v': 'ten watts'}
    if r < 0.85 and ns > 1:
        v = [kit.uni(rng, -9e3, 9e3, 1) for _ in range(ns)]
        v[-1] = 'x'
        return {'v': v}
    return {'v': {'q': 1.}}


def generate(rng, tier):
    kind = rng.choice(['ClaessonJaved', 'MLAA', 'Liu'])
    nt = rng.randint(2, 30)
    s = agg.gen_spec(rng, kind, nt, tier)
    prof = rng.choice(agg.PROFILES)
    steps = []
    for k in range(nt):
        ops = []
        while rng.random() < 0.55:
            r = rng.random()
            if r < 0.35:
                ops.append(['set', agg.load_at(rng, 'wild' if rng.random()
                                               < 0.4 else prof, k, s['ns'])])
            elif r < 0.55:
                ops.append(['eval', rng.random() < 0.15])
            elif r < 0.7:
                ops.append(['reject', gen_bad(rng, s['ns'])])
            elif r < 0.85:
                ops.append(['fault', rng.choice(['eval', 'eval', 'times',
                                                 'increments']),
                            faults.gen(rng, 60, 6)])
            else:
                ops.append(['torn', agg.load_at(rng, 'wild', k, s['ns']),
                            faults.gen(rng, 6, 2)])
        ops.append(['set', agg.load_at(rng, prof, k, s['ns'])])
        # disturbances after the load has been accepted
        while rng.random() < 0.35:
            r = rng.random()
            if r < 0.4:
                ops.append(['reject', gen_bad(rng, s['ns'])])
            elif r < 0.7:
                ops.append(['eval', False])
            else:
                ops.append(['fault', 'eval', faults.gen(rng, 60, 6)])
        if rng.random() < 0.7 or k == nt - 1:
            ops.append(['eval', False])
        steps.append(ops)
    return {'spec': s, 'steps': steps,
            'hand': rng.choice([None, None, 'refill', 'wipe'])}


def call(obj, what):
    if what == 'times':
        return obj.get_times_for_simulation()
    if what == 'increments' and hasattr(
            obj, 'get_thermal_response_factor_increment'):
        return obj.get_thermal_response_factor_increment()
    return obj.temporal_superposition()


def clean(s, accepted):
    """Answer of a new object given only the accepted loads."""
    w = World()
    obj, _ = agg.make(w, s)
    for k, q in enumerate(accepted):
        obj.next_time_step((k + 1) * s['dt'])
        if q is not None:
            obj.set_current_load(agg.give(s, q))
    y = np.ravel(obj.temporal_superposition())
    w.close()
    return y


def compare(ctx, s, k, y, want, accepted, what):
    scale = sum(float(np.sum(np.abs(q))) for q in accepted if q is not None) \
        * 10. + 1e-300
    ctx.count('answers compared')
    ok = y.shape == want.shape and np.all(np.abs(y - want) <= RTOL * scale)
    ctx.check(ok, 'trace-of-discarded-load', lambda: f'{s["kind"]} step '
              f'{k + 1}: {what} {y}, expected {want} from the accepted loads '
              f'{accepted[-6:]}')


def execute(plan, ctx):
    s = plan['spec']
    w = World()
    obj, _ = agg.make(w, s)
    hand = agg.Hand(s, plan.get('hand'))
    wr = World()
    twin, _ = agg.make(wr, s)
    accepted = []
    settings = kit.process_settings()
    for k, ops in enumerate(plan['steps']):
        obj.next_time_step((k + 1) * s['dt'])
        accepted.append(None)
        ctx.sim_time += s['dt']
        ctx.count('time steps')
        trial = True
        evals = []
        disturbed = False
        last = max([j for j, op in enumerate(ops) if op[0] == 'set'],
                   default=-1)
        for j, op in enumerate(ops):
            if op[0] == 'set':
                if not trial or accepted[-1] is not None:
                    ctx.fault('revised load')
                obj.set_current_load(hand(s, op[1]))
                hand.done()
                accepted[-1] = op[1]
            elif op[0] == 'reject':
                v = op[1]['v']
                if isinstance(v, list) and all(
                        not isinstance(x, (str, list)) for x in v):
                    v = np.array(v)
                out = kit.call(obj.set_current_load, v)
                if not isinstance(out, kit.Raised):
                    ctx.count('not rejected')
                    w.close()
                    wr.close()
                    return
                ctx.fault('rejected load')
                ctx.state(s['kind'], 'reject', s['ns'] > 1)
                ctx.event(k, 'rejected', type(v).__name__)
            elif op[0] == 'fault':
                inj = faults.make(op[2])
                with inj:
                    out = kit.call(call, obj, op[1])
                if inj.fired:
                    ctx.fault(faults.name(op[2]))
                    ctx.state(s['kind'], op[1], getattr(inj, 'where', None))
                ctx.event(k, 'fault', op[1], inj.fired)
                now = kit.process_settings()
                ctx.check(now == settings, 'settings-left-changed',
                          lambda: f'step {k} ' + kit.changed_settings(
                              settings, now))
            elif op[0] == 'torn':
                inj = faults.make(op[2])
                with inj:
                    out = kit.call(obj.set_current_load, hand(s, op[1]))
                if inj.fired:
                    ctx.fault(faults.name(op[2]))
                ctx.event(k, 'torn', inj.fired)
                # the caller repeats what was interrupted
                obj.set_current_load(hand(s, op[1]))
                hand.done()
                accepted[-1] = op[1]
            elif op[0] == 'eval':
                y = np.ravel(obj.temporal_superposition())
                ctx.event(k, 'eval', y)
                if j > last:
                    evals.append(y)
                elif op[1]:
                    compare(ctx, s, k, y, clean(s, accepted), accepted,
                            'trial answer')
        twin.next_time_step((k + 1) * s['dt'])
        if accepted[-1] is not None:
            twin.set_current_load(agg.give(s, accepted[-1]))
        if evals:
            want = np.ravel(twin.temporal_superposition())
            for y in evals:
                compare(ctx, s, k, y, want, accepted, 'answer')
            ctx.nontrivial = True
    y = np.ravel(obj.temporal_superposition())
    compare(ctx, s, len(accepted) - 1, y, clean(s, accepted), accepted,
            'final answer')
    w.close()
    wr.close()
