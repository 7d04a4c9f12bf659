"""Deterministic simulation engine.

A *plan* is a JSON value that spells out one complete simulated execution: the
objects built, the operations performed by each party, the values they use,
every fault, context switch, clock jump and I/O error.  `generate(rng, tier)`
draws a plan from a seeded PRNG; `execute(plan, ctx)` is a pure function of the
plan and of the code in /repo.  One integer (VERIF_SEED) decides every run:
run i of property P uses the PRNG seeded with sha256(seed / P / i).
"""
import collections
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time as _time
import traceback

from . import world

# real clock, captured before any simulated clock is installed
_now = world.REAL_CLOCK['perf_counter']
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG_DIR = world.PKG_DIR


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, kind, message):
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    pass


class Ctx:
    """Recorder of one run: event log, fault counters, probes, states."""

    def __init__(self, keep=False):
        self._h = hashlib.sha256()
        self.n_events = 0
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.sim_time = 0.
        self.nontrivial = False
        self.keep = keep
        self.log = []
        self.extra = {}
        self._prev = None

    def event(self, *items):
        s = '|'.join(_render(i) for i in items)
        self.n_events += 1
        self._h.update(s.encode())
        self._h.update(b'\n')
        if self.keep:
            self.log.append(s)

    def count(self, name, n=1):
        self.counts[name] += n

    def fault(self, name, n=1):
        self.faults[name] += n
        self.nontrivial = True

    def state(self, *key):
        """Abstract state reached; transitions between successive abstract
        states are what is counted as 'distinct'."""
        k = repr(key)
        self.states.add(repr((self._prev, k)))
        self._prev = k

    def check(self, cond, kind, message):
        self.count('assertions')
        if not cond:
            raise Violation(kind, message() if callable(message) else message)

    def digest(self):
        return self._h.hexdigest()[:16]


def _render(x):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return repr(x.tolist())
            return f'{x.shape}:' + hashlib.sha256(
                np.ascontiguousarray(x).tobytes()).hexdigest()[:12]
        if isinstance(x, np.generic):
            return repr(x.item())
    except ImportError:
        pass
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(_render(i) for i in x) + ']'
    return repr(x)


def load_prop(pid):
    return importlib.import_module(f'sim.props.{pid.lower()}')


def run_seed(seed, pid, i):
    h = hashlib.sha256(f'{seed}/{pid}/{i}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def make_plan(mod, seed, i, tier):
    rng = random.Random(run_seed(seed, mod.ID, i))
    plan = mod.generate(rng, tier)
    # what is executed is what the replay file can hold
    return json.loads(json.dumps(plan))


def _from_code_under_test(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG_DIR):
            return True
        tb = tb.tb_next
    return False


def seed_library_rngs():
    import numpy as np
    random.seed(20240229)
    np.random.seed(20240229)


def execute(mod, plan, keep=False):
    """-> (outcome dict, ctx).  outcome: {'ok': bool, kind, message}."""
    ctx = Ctx(keep)
    old_trace = sys.gettrace()
    old_stdout = sys.stdout
    world.Clock.begin_run()
    seed_library_rngs()
    try:
        mod.execute(plan, ctx)
        out = {'ok': True}
    except Violation as v:
        out = {'ok': False, 'kind': v.kind, 'message': v.message}
    except HarnessError:
        raise
    except Exception as e:
        sys.settrace(old_trace)
        sys.stdout = old_stdout
        world.Clock.uninstall()
        if not _from_code_under_test(e.__traceback__):
            raise
        # a valid request to the system under test blew up outside of the
        # places where the plan asks for a failure
        out = {'ok': False, 'kind': f'unexpected-{type(e).__name__}',
               'message': ''.join(traceback.format_exception_only(e)).strip()
               + ' at ' + _where(e.__traceback__)}
    finally:
        sys.settrace(old_trace)
        sys.stdout = old_stdout
        world.Clock.end_run()
    if not out['ok']:
        ctx.event('VIOLATION', out['kind'])
    world.close_all()
    return out, ctx


def _where(tb):
    frames = traceback.extract_tb(tb)
    inside = [f for f in frames if f.filename.startswith(PKG_DIR)]
    f = (inside or frames)[-1]
    return f'{os.path.basename(f.filename)}:{f.name}'


# ---------------------------------------------------------------------------
# Batch of runs over worker processes

def _worker(pid, seed, tier, indices, deadline, path, stop_at_first):
    mod = load_prop(pid)
    agg = {'runs': 0, 'events': 0, 'counts': collections.Counter(),
           'faults': collections.Counter(), 'states': set(), 'sim_time': 0.,
           'digests': [], 'nontrivial': set(), 'violations': [],
           'samples': [], 'error': None, 'skipped': 0, 'extra': {}}
    import resource
    try:
        for i in indices:
            if _now() > deadline:
                agg['skipped'] += 1
                continue
            plan = make_plan(mod, seed, i, tier)
            out, ctx = execute(mod, plan, keep=len(agg['samples']) < 1)
            agg['runs'] += 1
            agg['events'] += ctx.n_events
            agg['counts'].update(ctx.counts)
            agg['faults'].update(ctx.faults)
            if len(agg['states']) < 200000:
                agg['states'].update(ctx.states)
            agg['sim_time'] += ctx.sim_time
            d = ctx.digest()
            agg['digests'].append((i, d))
            if ctx.nontrivial:
                agg['nontrivial'].add(d)
            if len(agg['samples']) < 1:
                agg['samples'].append(
                    {'index': i, 'run_seed': run_seed(seed, mod.ID, i),
                     'plan': plan, 'outcome': out, 'digest': d,
                     'events': ctx.n_events, 'log_head': ctx.log[:12]})
            if not out['ok']:
                agg['violations'].append((i, out['kind'], out['message'],
                                          list(indices)))
                if stop_at_first:
                    break
    except BaseException as e:                     # harness error
        agg['error'] = f'run index {i}: ' + ''.join(
            traceback.format_exception(e))[-3000:]
    agg['cpu'] = resource.getrusage(resource.RUSAGE_SELF).ru_utime
    agg['states'] = sorted(agg['states'])
    agg['nontrivial'] = sorted(agg['nontrivial'])
    with open(path + '.tmp', 'w') as f:
        json.dump(agg, f)
    os.rename(path + '.tmp', path)


def run_batch(pid, seed, tier, n_runs, workers, soft_s, hard_s,
              stop_at_first=True, first=0):
    """Static assignment: run i is executed by worker i % workers."""
    start = _now()
    deadline = start + soft_s
    tmp = tempfile.mkdtemp(prefix='sim-')
    pids = {}
    try:
        load_prop(pid)              # import before forking
        world.warm()
        for w in range(workers):
            idx = list(range(first + w, first + n_runs, workers))
            if not idx:
                continue
            path = os.path.join(tmp, f'{w}.json')
            sys.stdout.flush()
            sys.stderr.flush()
            p = os.fork()
            if p == 0:
                code = 1
                try:
                    _worker(pid, seed, tier, idx, deadline, path,
                            stop_at_first)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids[p] = path
        results = []
        errors = []
        pending = dict(pids)
        while pending:
            p, st = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                if _now() - start > hard_s:
                    for q in pending:
                        try:
                            os.kill(q, 9)
                        except ProcessLookupError:
                            pass
                    for q in list(pending):
                        os.waitpid(q, 0)
                    errors.append(f'worker exceeded {hard_s} s')
                    break
                _time.sleep(0.01)
                continue
            path = pending.pop(p, None)
            if path is None:
                continue
            if os.path.exists(path):
                with open(path) as f:
                    results.append(json.load(f))
            else:
                errors.append(f'worker ended with status {st}')
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    tot = {'runs': 0, 'events': 0, 'counts': collections.Counter(),
           'faults': collections.Counter(), 'states': set(), 'sim_time': 0.,
           'digests': [], 'nontrivial': set(), 'violations': [],
           'samples': [], 'errors': errors, 'skipped': 0, 'cpu': 0.}
    for r in results:
        for k in ('runs', 'events', 'sim_time', 'skipped', 'cpu'):
            tot[k] += r[k]
        for k in ('counts', 'faults'):
            tot[k].update(r[k])
        for k in ('states', 'nontrivial'):
            tot[k].update(r[k])
        tot['digests'] += [tuple(d) for d in r['digests']]
        tot['violations'] += [tuple(v) for v in r['violations']]
        tot['samples'] += r['samples']
        if r['error']:
            tot['errors'].append(r['error'])
    tot['digests'].sort()
    tot['violations'].sort(key=lambda v: v[0])
    tot['samples'].sort(key=lambda s: s['index'])
    tot['wall'] = _now() - start
    tot['digest'] = hashlib.sha256(
        repr(tot['digests']).encode()).hexdigest()[:16]
    return tot


# ---------------------------------------------------------------------------
# Minimisation

def _candidates(mod, plan):
    """Smaller plans: drop chunks of the lists the property declares as
    reducible, then property-specific simplifications."""
    for key in getattr(mod, 'LISTS', ('ops',)):
        seq = plan.get(key)
        if not isinstance(seq, list) or not seq:
            continue
        n = len(seq)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                new = dict(plan)
                new[key] = seq[:a] + seq[a + size:]
                yield new
            size //= 2
    if hasattr(mod, 'simplify'):
        yield from mod.simplify(plan)


def shrink(mod, plan, kind, budget_s):
    end = _now() + budget_s
    tried = 0
    seen = set()
    progress = True
    while progress and _now() < end:
        progress = False
        for cand in _candidates(mod, plan):
            if _now() > end:
                break
            cand = json.loads(json.dumps(cand))
            key = json.dumps(cand, sort_keys=True)
            if key in seen or cand == plan:
                continue
            seen.add(key)
            tried += 1
            try:
                out, _ = execute(mod, cand)
            except Exception:
                continue
            if not out['ok'] and out['kind'] == kind:
                plan = cand
                progress = True
                break
    return plan, tried


def replay_file(path, quiet=False):
    with open(path) as f:
        rep = json.load(f)
    mod = load_prop(rep['property'])
    for p in rep.get('prefix', []):
        try:
            execute(mod, p)
        except Exception:
            pass
    out, ctx = execute(mod, rep['plan'], keep=True)
    if not quiet:
        for line in ctx.log:
            print('  event', line)
    return rep, out, ctx


def report_violation(mod, seed, tier, v, budget_s):
    """Shrink, write the replay file, confirm it in a fresh process."""
    i, kind, message, indices = v
    plan = make_plan(mod, seed, i, tier)
    original = plan
    out, ctx = execute(mod, plan)
    prefix = []
    if out['ok'] or out['kind'] != kind:
        # depends on what this worker ran before: replay that as well
        prefix = [make_plan(mod, seed, j, tier) for j in indices if j < i]
        small, tried = plan, 0
    else:
        small, tried = shrink(mod, plan, kind, budget_s)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join('replays', f'{mod.ID}-{seed}-{i}.json')

    def write(plan, prefix):
        out2, ctx2 = ({'kind': kind, 'message': message}, None) \
            if prefix else execute(mod, plan)
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump({'property': mod.ID, 'seed': seed, 'tier': tier,
                       'run_index': i, 'run_seed': run_seed(seed, mod.ID, i),
                       'kind': kind,
                       'message': out2.get('message', message),
                       'shrink_attempts': tried,
                       'original_size': len(json.dumps(original)),
                       'minimised_size': len(json.dumps(plan)),
                       'prefix': prefix, 'plan': plan}, f, indent=1)

    def confirmed():
        r = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'check.py'), '--replay',
             path], cwd=VERIF, capture_output=True, text=True, timeout=600)
        return r.returncode == 1
    write(small, prefix)
    if confirmed():
        return path, small, True
    all_before = [make_plan(mod, seed, j, tier) for j in indices if j < i]
    write(original, all_before)
    return path, original, confirmed()
