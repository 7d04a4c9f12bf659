"""C05  An interrupted or failed evaluation leaves no trace.

A history over a small pool of queries on one pipe, or on a network and its
pipes, in which evaluations, resistance updates and constructions of further
pipes are hit by faults.  The oracle is a set of candidate descriptions: one,
unless an update was stopped, in which case the object may be the old or the
new one; every later answer must equal the answer of a fresh object for one
and the same candidate.
"""
import json

import numpy as np

from .. import faults, kit, netq, pipeq, tasks
from ..world import World

ID = 'C05'
RUNS = {'quick': 1200, 'thorough': 24000}
RULE = ('a run is one history of 8-60 operations on a pipe or a network in '
        'which 2-8 calls are hit by an interrupt, a failed allocation or a '
        'failing library routine; non-trivial: a fault fired and a later '
        'answer was compared; distinct by the digest of its event log')
REAL = ['pygfunction.pipes', 'pygfunction.networks', 'pygfunction.boreholes',
        'numpy', 'scipy']
STUBS = ['process start', 'delivery of interrupts (trace hook)',
         'failing numpy routines']
STATE_MEASURE = ('pairs of successive (operation kind, method, function in '
                 'which the fault was delivered)')


def generate(rng, tier):
    net = rng.random() < 0.45
    if net:
        spec = netq.gen_network(rng, nmax=3)
        args = [netq.gen_args(rng, spec)]
    else:
        spec = kit.gen_pipe(rng)
        args = [pipeq.gen_args(rng, spec)]
    for _ in range(rng.choice([1, 1, 2])):
        if net:
            args.append(netq.near(rng, spec, args[0])[0])
        elif rng.random() < 0.4:
            args.append(dict(args[0], m=[-x for x in args[0]['m']]))
        else:
            args.append(pipeq.near(rng, spec, args[0])[0])
    mq = netq if net else pipeq
    pool = [mq.gen_query(rng, spec, a, [f])
            for f in rng.sample(mq.METHODS, rng.randint(2, 5))
            for a in args]
    if net:
        # direct use of the pipes
        for i in rng.sample(range(len(spec['pipes'])), 1):
            a = pipeq.gen_args(rng, spec['pipes'][i])
            q = pipeq.gen_query(rng, spec['pipes'][i], a)
            pool.append(dict(q, pipe=i))
    ops = []
    big = 600 if net else 250
    for _ in range(rng.randint(2, 8)):
        for _ in range(rng.randint(0, 4)):
            ops.append({'op': 'use', 'k': rng.randrange(len(pool))})
        r = rng.random()
        f = faults.gen(rng, big, 60 if net else 25)
        if r < 0.5:
            k = rng.randrange(len(pool))
            ops.append({'op': 'use', 'k': k, 'fault': f})
            ops.append({'op': 'use', 'k': rng.choice([
                k, rng.randrange(len(pool))])})
        elif r < 0.75:
            i = rng.randrange(len(spec['pipes'])) if net else 0
            u = kit.gen_update(rng, spec['pipes'][i] if net else spec)
            f = faults.gen(rng, 60, 8)
            op = {'op': 'update', 'i': i, 'u': u, 'fault': f}
            ops.append(op)
            if rng.random() < 0.5:
                ops.append({'op': 'use', 'k': rng.randrange(len(pool))})
                if rng.random() < 0.7:
                    ops.append(dict(op, fault=None))
        else:
            # another pipe is being built when the fault hits; nearly the
            # same geometry, so that remembered resistances matter
            p = spec['pipes'][0] if net else spec
            how = 'build'
            if rng.random() < 0.25:
                st = tasks.gen_static_step(rng, p)
                ops.append({'op': 'static', 's': st,
                            'fault': faults.gen(rng, 80, 8)})
                if rng.random() < 0.5:
                    st = tasks.twin(rng, {'type': 'static', 'steps': [st]},
                                    p)['steps'][0]
                ops.append({'op': 'static', 's': st, 'fault': None})
                continue
            if p['kind'] != 'coax' and rng.random() < 0.6:
                how = 'resistances'
                f = faults.gen(rng, 120, 6)
            ops.append({'op': how, 'p': variant(rng, p), 'fault': f})
            ops.append({'op': rng.choice([how, 'build']),
                        'p': dict(ops[-1]['p']) if rng.random() < 0.6
                        else variant(rng, p), 'fault': None})
    ops += [{'op': 'use', 'k': rng.randrange(len(pool))}
            for _ in range(rng.randint(2, 5))]
    return {'net': net, 'spec': spec, 'pool': pool, 'ops': ops}


def variant(rng, p):
    q = dict(p)
    if rng.random() < 0.6:
        q['k_g'] = round(p['k_g'] * rng.choice([1.001, 1.1, 0.9]), 5)
    if rng.random() < 0.3:
        q['R_fp'] = round(p['R_fp'] * 1.05, 6)
    return q


def execute(plan, ctx):
    net = plan['net']
    w = World()
    obj = netq.make_network(w, plan['spec']) if net \
        else kit.make_pipe(w, plan['spec'])
    cands = [plan['spec']]
    memo = {}
    hit = False
    settings = kit.process_settings()

    def fresh(c, k):
        key = (json.dumps(c, sort_keys=True), k)
        if key not in memo:
            q = plan['pool'][k]
            if net and 'pipe' in q:
                # the pipe alone, as part of a fresh network
                w2 = World()
                n2 = netq.make_network(w2, c)
                memo[key] = kit.frozen(pipeq.run(w2, n2.p[q['pipe']], q))
                w2.close()
            else:
                memo[key] = (netq if net else pipeq).fresh_answer(World, c, q)
        return memo[key]

    def ask(q):
        if net and 'pipe' in q:
            return pipeq.run(w, obj.p[q['pipe']], q)
        return (netq if net else pipeq).run(w, obj, q)

    def unchanged(i):
        now = kit.process_settings()
        ctx.check(now == settings, 'settings-left-changed', lambda: f'op {i}'
                  f' changed ' + kit.changed_settings(settings, now))

    for i, op in enumerate(plan['ops']):
        if i:
            unchanged(i - 1)
        ctx.sim_time += 3600.
        spec = op.get('fault')
        inj = faults.make(spec)
        where = None
        if op['op'] == 'use':
            q = plan['pool'][op['k']]
            with inj:
                got = ask(q)
            got = kit.frozen(got)
            if inj.fired:
                hit = True
                ctx.fault(faults.name(spec))
                where = getattr(inj, 'where', None)
            ctx.event(i, 'use', op['k'], got if not inj.fired else 'faulted',
                      where)
            ctx.state('use', q['f'], where)
            if inj.fired and isinstance(got, kit.Raised):
                continue
            ctx.count('answers compared')
            if hit:
                ctx.count('answers compared after a fault')
            keep, why = [], None
            for c in cands:
                d = disagree(got, fresh(c, op['k']))
                if d is None:
                    keep.append(c)
                else:
                    why = d
            ctx.check(bool(keep), 'trace-of-stopped-call'
                      if len(cands) == 1 else 'torn-update',
                      lambda: f'op {i} {q["f"]}: {why} (compared with '
                      f'{len(cands)} admissible states)')
            cands = keep
        elif op['op'] == 'update':
            j = op['i']
            pipe = obj.p[j] if net else obj
            p = cands[0]['pipes'][j] if net else cands[0]
            with inj:
                out = kit.call(kit.apply_update, pipe, p, op['u'])
            if inj.fired:
                hit = True
                ctx.fault(faults.name(spec) + ' in update')
                where = getattr(inj, 'where', None)
            else:
                ctx.check(not isinstance(out, kit.Raised), 'update-raised',
                          lambda: f'op {i}: {out!r} {out.exc}')
            new = [netq.with_update(c, j, op['u']) if net
                   else kit.with_resistances(c, op['u']) for c in cands]
            cands = cands + new if inj.fired else new
            seen = {json.dumps(c, sort_keys=True): c for c in cands}
            cands = list(seen.values())
            ctx.event(i, 'update', op['u'], inj.fired, where)
            ctx.state('update', where)
        elif op['op'] == 'static':
            f = op['s']['f']
            with inj:
                got = kit.call(tasks.run_static, w, op['s'])
            got = kit.frozen(got)
            if inj.fired:
                hit = True
                ctx.fault(faults.name(spec) + ' in function')
                where = getattr(inj, 'where', None)
            ctx.event(i, 'static', f, inj.fired, where)
            ctx.state('static', f, where)
            if inj.fired and isinstance(got, kit.Raised):
                continue
            w2 = World()
            want = kit.frozen(kit.call(tasks.run_static, w2, op['s']))
            w2.close()
            ctx.count('functions compared')
            d = disagree(got, want)
            ctx.check(d is None, 'trace-of-stopped-function',
                      lambda: f'op {i} {f}: {d}')
        else:
            how = op['op']
            with inj:
                out = kit.call(kit.make_pipe, w, op['p']) \
                    if how == 'build' else kit.call(resistances, w, op['p'])
            if inj.fired:
                hit = True
                ctx.fault(faults.name(spec) + ' in construction')
                where = getattr(inj, 'where', None)
            ctx.event(i, how, inj.fired, where)
            ctx.state(how, op['p']['kind'], where)
            if isinstance(out, kit.Raised):
                ctx.check(inj.fired, 'construction-raised',
                          lambda: f'op {i}: {out!r} {out.exc}')
                continue
            w2 = World()
            if how == 'build':
                got = characterise(out, op['p'])
                want = characterise(kit.make_pipe(w2, op['p']), op['p'])
            else:
                got, want = kit.frozen(out), resistances(w2, op['p'])
            w2.close()
            d = kit.differs(got, want)
            ctx.count('constructions compared')
            ctx.check(d is None, 'trace-of-stopped-construction',
                      lambda: f'op {i}: new {op["p"]["kind"]} pipe: {d}')
    unchanged('last')
    w.close()


def resistances(w, p):
    return w.pipes.thermal_resistances(
        [tuple(x) for x in p['pos']], p['r_out'], p['b']['r_b'], p['k_s'],
        p['k_g'], p['R_fp'], J=p['J'])


def characterise(pipe, p):
    m = [kit.flow_scale(p)] * kit.n_inlets(p)
    m = m[0] if len(m) == 1 else np.array(m)
    return (pipe.local_borehole_thermal_resistance(),) \
        + tuple(kit.frozen(pipe.coefficients_outlet_temperature(m, 4000., 2)))


def disagree(got, want):
    r1, r2 = isinstance(got, kit.Raised), isinstance(want, kit.Raised)
    if r1 or r2:
        return None if r1 == r2 else f'{got!r} instead of {want!r}'
    return kit.differs(got, want)


def simplify(plan):
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'use':
            q = plan['pool'][op['k']]
            if q.get('ratios') is not None and 'fault' not in op:
                break
    if not plan['net'] and plan['spec']['b'].get('tilt'):
        b = {k: v for k, v in plan['spec']['b'].items()
             if k not in ('tilt', 'orientation')}
        yield dict(plan, spec=dict(plan['spec'], b=b))
