"""C01  Answers of a pipe do not depend on its history."""
from .. import kit, pipeq
from ..world import World

ID = 'C01'
RUNS = {'quick': 1400, 'thorough': 24000}
RULE = ('a run is one history of 6-300 operations on one pipe (queries that '
        'are near misses of earlier ones, flow reversals, resistance '
        'updates, rejected calls, creeping ramps); non-trivial: at least one '
        'query repeated after a reversal, update, rejected call or ramp; '
        'distinct by the digest of its event log')
REAL = ['pygfunction.pipes', 'pygfunction.boreholes', 'numpy', 'scipy']
STUBS = ['process start (private re-execution of the package per world)']


def generate(rng, tier):
    plan = pingpong(rng, tier) if rng.random() < 0.45 else varied(rng, tier)
    # the caller fills the same arrays again for every call
    plan['refill'] = rng.random() < 0.35
    return plan


def pingpong(rng, tier):
    """A long history over a small pool of queries: a few methods asked for
    two or three near-miss sets of arguments, over and over."""
    p = kit.gen_pipe(rng, rng.choice(['single', 'single', 'coax', 'coax',
                                      'multi', 'indep']))
    args = [pipeq.gen_args(rng, p)]
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.5:
            args.append(dict(args[0], m=[-x for x in args[0]['m']]))
        else:
            args.append(pipeq.near(rng, p, args[0])[0])
    k = rng.randint(3, 7)
    methods = rng.sample(pipeq.METHODS, k)
    pool = [pipeq.gen_query(rng, p, a, [f]) for f in methods for a in args]
    ops = [{'op': 'use', 'k': rng.randrange(len(pool))}
           for _ in range(rng.randint(60, 300 if tier == 'thorough'
                                      else 200))]
    cur = p
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            u = kit.gen_update(rng, cur)
            ops.insert(rng.randrange(len(ops)), {'op': 'update', 'u': u})
    return {'pipe': p, 'pool': pool, 'ops': ops}


def varied(rng, tier):
    p = kit.gen_pipe(rng)
    ops = []
    pool = [pipeq.gen_args(rng, p)]
    n = rng.randint(6, 45 if tier == 'thorough' else 30)
    methods = pipeq.METHODS
    if rng.random() < 0.5:                 # swarm: a few methods only
        methods = rng.sample(pipeq.METHODS, rng.randint(1, 4))
    cur = p
    for _ in range(n):
        r = rng.random()
        if r < 0.08:
            u = kit.gen_update(rng, cur)
            cur = kit.with_resistances(cur, u)
            ops.append({'op': 'update', 'u': u})
            continue
        if r < 0.11:
            q = pipeq.gen_query(rng, cur, pool[-1], methods)
            bad = rng.choice(['m_len', 'ratio_len', 'update'])
            ops.append({'op': 'bad', 'how': bad, 'q': q})
            continue
        if r < 0.15:
            q = pipeq.gen_query(rng, cur, pool[-1], methods)
            ops.append({'op': 'ramp', 'q': q, 'k': rng.choice([30, 150]),
                        'what': rng.choice(['m', 'cp', 'ratio'])})
            continue
        if r < 0.45 and len(pool) > 1:
            a, rel = rng.choice(pool), 'recall'
        else:
            a, rel = pipeq.near(rng, cur, rng.choice(pool[-2:]))
            pool.append(a)
            pool = pool[-6:]
        q = pipeq.gen_query(rng, cur, a, methods)
        ops.append({'op': 'query', 'q': q, 'rel': rel})
    return {'pipe': p, 'ops': ops}


def ramped(q, k, what):
    q = dict(q)
    f = (1. + 0.9e-6) ** k
    if what == 'm':
        q['m'] = [x * f for x in q['m']]
    elif what == 'cp':
        q['cp'] = pipeq.scale(q['cp'], f)
    elif q['ratios'] is not None and q['n'] > 1:
        r = list(q['ratios'])
        d = r[0] * (f - 1.)
        r[0] += d
        r[-1] -= d
        q['ratios'] = r
    return q


def execute(plan, ctx):
    p = plan['pipe']
    w = World()
    pipe = kit.make_pipe(w, p)
    buf = kit.Buffers(plan.get('refill', False))
    disturbed = False
    version = 0
    memo = {}
    for i, op in enumerate(plan['ops']):
        k = op['op']
        ctx.sim_time += 3600.
        if k == 'update':
            kit.apply_update(pipe, p, op['u'])
            p = kit.with_resistances(p, op['u'])
            version += 1
            ctx.event(i, 'update', op['u'])
            ctx.count('resistance updates')
            ctx.state('update', p['kind'])
            disturbed = True
            continue
        if k == 'bad':
            q = dict(op['q'])
            if op['how'] == 'update':
                # an update that the interface must reject or accept the
                # same way; nothing is asserted about it but what follows
                out = kit.call(pipe.update_thermal_resistances)
            else:
                if op['how'] == 'm_len':
                    q['m'] = list(q['m']) + [q['m'][0]] * 2
                else:
                    q['ratios'] = [0.25] * 4 if q['n'] != 4 else [0.5] * 2
                out = pipeq.run(w, pipe, q)
                ref = pipeq.fresh_answer(World, p, q)
                ctx.check(isinstance(out, kit.Raised)
                          or not isinstance(ref, kit.Raised),
                          'invalid-call-accepted',
                          lambda: f'op {i} {op["how"]} {q["f"]}: a new '
                          f'object rejects it ({ref!r})')
            if isinstance(out, kit.Raised):
                ctx.fault('rejected call')
            ctx.event(i, 'bad', op['how'], repr(out)
                      if isinstance(out, kit.Raised) else 'ok')
            ctx.state('bad', op['how'])
            disturbed = True
            continue
        if k == 'use':
            q = plan['pool'][op['k']]
            got = pipeq.run(w, pipe, q, buf)
            key = (version, op['k'])
            if key not in memo:
                memo[key] = pipeq.fresh_answer(World, p, q)
            ctx.event(i, op['k'], kit.frozen(got))
            ctx.count('queries compared')
            ctx.nontrivial = ctx.nontrivial or i > 3
            ctx.state(p['kind'], q['f'], q['m'][0] < 0)
            pipeq.compare(ctx, got, memo[key], 'history-dependent-answer',
                          f'op {i} {q["f"]} on {p["kind"]} pipe')
            continue
        q = op['q']
        if k == 'ramp':
            for j in range(op['k']):
                pipeq.run(w, pipe, ramped(q, j, op['what']), buf)
            q = ramped(q, op['k'], op['what'])
            ctx.count('creeping ramps')
            disturbed = True
        got = pipeq.run(w, pipe, q, buf)
        want = pipeq.fresh_answer(World, p, q)
        ctx.event(i, k, q['f'], kit.frozen(got))
        ctx.count('queries compared')
        if any(x < 0 for x in q['m']):
            ctx.count('queries with reversed flow')
        if disturbed:
            ctx.nontrivial = True
        rel = op.get('rel', k)
        if rel == 'reverse':
            disturbed = True
        ctx.state(p['kind'], q['f'], rel)
        pipeq.compare(ctx, got, want, 'history-dependent-answer',
                      f'op {i} {q["f"]} on {p["kind"]} pipe')
    if buf.refilled:
        ctx.count('argument arrays filled again', buf.refilled)
    w.close()


def simplify(plan):
    if plan.get('refill'):
        yield dict(plan, refill=False)
    for i, op in enumerate(plan['ops']):
        q = op.get('q')
        if q is None:
            continue
        if op['op'] == 'ramp' and op['k'] > 30:
            yield _rep(plan, i, dict(op, k=30))
        if q['ratios'] is not None:
            yield _rep(plan, i, dict(op, q=dict(q, ratios=None)))
    b = plan['pipe']['b']
    if b.get('tilt'):
        yield dict(plan, pipe=dict(plan['pipe'], b={
            k: v for k, v in b.items() if k not in ('tilt', 'orientation')}))


def _rep(plan, i, op):
    ops = list(plan['ops'])
    ops[i] = op
    return dict(plan, ops=ops)
