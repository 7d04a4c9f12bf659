"""C15  A bore field file that was written without error reloads exactly."""
import gc
import os

import numpy as np

from .. import disk, kit
from ..world import World

ID = 'C15'
RUNS = {'quick': 9000, 'thorough': 160000}
RULE = ('a run is a history of 3-12 saves and loads of several bore fields '
        'in a few files of a simulated disk with faults (full disk, I/O '
        'errors on write, close, read and open, short and interrupted '
        'writes and reads, crash of the process in the middle of a save); '
        'every file written without error is read back by both readers; '
        'non-trivial: a file read back or a fault fired; distinct by event '
        'digest')
REAL = ['pygfunction.borefield', 'pygfunction.boreholes',
        'numpy.savetxt / loadtxt', "Python's buffered and text I/O"]
STUBS = ['raw file I/O (faults injected above a real scratch directory)',
         'process start (private re-execution of the package per world)']
STATE_MEASURE = ('pairs of successive (operation, faults fired, outcome, '
                 'size of the field)')
NAMES = ['a.txt', 'b.txt', 'bore field.csv', 'c.txt.gz', 'champ_é.txt']
KEYS = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')


COMPOSED = ['slice', 'pick', 'sum', 'one']


def number(rng, a, b):
    r = rng.random()
    if r < 0.5:
        return kit.uni(rng, a, b, 3)
    if r < 0.85:
        return rng.uniform(a, b)             # all digits
    return float(rng.randint(int(a), int(b)))


def gen_field(rng):
    n = rng.choice([1, 1, 2, 3, 4, 5, 8, 13, 30, 120])
    if rng.random() < 0.004:
        n = rng.choice([700, 1100])
    f = {'H': [max(1., number(rng, 20., 400.)) for _ in range(n)],
         'D': [number(rng, 0., 8.) for _ in range(n)],
         'r_b': [rng.uniform(0.04, 0.2) for _ in range(n)]}
    far = rng.random() < 0.3
    lo, hi = (-5e6, 5e6) if far else (-80., 120.)
    f['x'] = [number(rng, lo, hi) for _ in range(n)]
    f['y'] = [number(rng, lo, hi) for _ in range(n)]
    mode = rng.random()
    if mode < 0.5:
        f['tilt'] = [0.] * n
        f['orientation'] = [0.] * n
    else:
        f['tilt'] = [0. if mode < 0.8 and rng.random() < 0.5
                     else rng.choice([rng.uniform(0., 1.2), 3e-6, 1e-7])
                     for _ in range(n)]
        f['orientation'] = [rng.uniform(-7., 7.) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        k = rng.randrange(1, n)              # a duplicate is a borehole too
        for v in f.values():
            v[k] = v[0]
    return f


def gen_faults(rng, save):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        r = rng.random()
        if r < 0.1:
            k = rng.choice(disk.OPEN_FAULTS)
        else:
            k = rng.choice(disk.WRITE_FAULTS if save else disk.READ_FAULTS)
        out.append({'kind': k, 'n': rng.choice([1, 1, 1, 2, 2, 3]),
                    'at': int(10 ** rng.uniform(0., 4.4))
                    if rng.random() < 0.9 else 0})
    return out


def generate(rng, tier):
    fields = [gen_field(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < 0.55:
            ops.append({'op': 'save', 'i': rng.randrange(len(fields)),
                        'file': rng.choice(names),
                        'how': rng.choice(['field', 'field', 'boreholes',
                                           'field', 'boreholes'] + COMPOSED),
                        'k': [rng.randrange(50), rng.randrange(50)],
                        'faults': gen_faults(rng, True)
                        if rng.random() < 0.5 else []})
        elif r < 0.9:
            ops.append({'op': 'load', 'file': rng.choice(names),
                        'how': rng.choice(['from_file', 'field_from_file']),
                        'faults': gen_faults(rng, False)
                        if rng.random() < 0.5 else []})
        elif r < 0.93:
            ops.append({'op': 'restart'})
        elif r < 0.97:
            k = rng.choice(('H', 'D', 'r_b', 'x', 'y'))
            ops.append({'op': 'edit', 'i': rng.randrange(len(fields)),
                        'key': k, 'j': rng.randrange(50),
                        'value': rng.uniform(0.5, 9.)
                        if k != 'r_b' else rng.uniform(0.04, 0.2)})
        else:
            ops.append({'op': 'hand', 'i': rng.randrange(len(fields)),
                        'file': names[0].replace('.gz', ''),
                        'cols': rng.choice([5, 7]),
                        'style': rng.randrange(4)})
    return {'fields': fields, 'ops': ops}


def make(w, f):
    return w.borefield.Borefield(
        *(np.array(f[k]) for k in ('H', 'D', 'r_b', 'x', 'y')),
        tilt=np.array(f['tilt']), orientation=np.array(f['orientation']))


def values(field):
    if isinstance(field, list):
        return {k: np.array([getattr(b, k) for b in field], dtype=float)
                for k in KEYS}
    return {k: np.array(getattr(field, k), dtype=float) for k in KEYS}


def different(a, b):
    for k in KEYS:
        if a[k].shape != b[k].shape:
            return f'{len(a[k])} boreholes instead of {len(b[k])}'
        if not np.array_equal(a[k], b[k]):
            i = int(np.argmax(a[k] != b[k]))
            return (f'{k} of borehole {i} is {a[k][i]!r} instead of '
                    f'{b[k][i]!r}')
    return None


def read(w, how, path):
    if how == 'from_file':
        return w.borefield.Borefield.from_file(path)
    return w.boreholes.field_from_file(path)


def compose(w, fields, truth, op):
    """Parts and sums of fields are fields; -> (field, its values)"""
    f, v = fields[op['i']], truth[op['i']]
    n = len(v['x'])
    a, b = op['k']
    if op['how'] == 'sum':
        j = a % len(fields)
        u = truth[j]
        if b % 3 == 0:                       # one borehole in front
            c = b % len(u['x'])
            return (fields[j][c] + f,
                    {k: np.append(u[k][c], v[k]) for k in KEYS})
        other = fields[j].to_boreholes() if b % 3 == 1 else fields[j]
        return f + other, {k: np.append(v[k], u[k]) for k in KEYS}
    if op['how'] == 'one':
        c = a % n
        g = w.borefield.Borefield.from_boreholes(f[c])
        ix = [c]
    elif op['how'] == 'slice':
        s = slice(a % n, None, 1 + b % 3) if b % 2 else slice(None, None, -1)
        g = f[s]
        ix = list(range(n))[s]
    else:
        ix = [(a + t * (b + 1)) % n for t in range(1 + b % 4)]
        g = f[ix]
    return g, {k: v[k][ix] for k in KEYS}


def attempt(f, *a):
    try:
        return f(*a)
    except disk.Crash as e:
        return kit.Raised(e)
    except KeyboardInterrupt as e:
        return kit.Raised(e)
    except Exception as e:
        # keep no frame (and so no file handle) alive
        e.__traceback__ = None
        e.__context__ = None
        return kit.Raised(e)


def by_hand(f, cols, style):
    """A file written by another program."""
    rows = []
    sep = [' ', '\t', '   ', '  \t'][style]
    if style % 2:
        rows.append('# x y H D r_b tilt orientation')
    for i in range(len(f['x'])):
        v = [f[k][i] for k in ('x', 'y', 'H', 'D', 'r_b', 'tilt',
                               'orientation')][:cols]
        rows.append(sep.join(repr(float(x)) for x in v)
                    + ('  # note' if style == 2 else ''))
    return '\n'.join(rows) + ('\n' if style != 3 else '')


def execute(plan, ctx):
    d = disk.Disk()
    try:
        with d:
            history(plan, ctx, d)
    finally:
        d.close()


def history(plan, ctx, d):
    w = World()
    fields = [make(w, f) for f in plan['fields']]
    truth = [values(f) for f in fields]
    lists = [f.to_boreholes() for f in fields]
    plain = [dict(t) for t in truth]
    files = {}                               # name -> values last saved

    def no_leak(i, what):
        if d.leaked():
            gc.collect()
        n = len(d.leaked())
        ctx.check(n == 0, 'file-left-open', lambda: f'op {i}: {n} file '
                  f'handles left open by {what}')
        d.handles = []

    for i, op in enumerate(plan['ops']):
        k = op['op']
        ctx.sim_time += 1.
        if k == 'save':
            p = d.path(op['file'])
            obj = fields[op['i']]
            want = truth[op['i']]
            if op['how'] == 'boreholes':
                obj = w.borefield.Borefield.from_boreholes(lists[op['i']])
            elif op['how'] in COMPOSED:
                obj, want = compose(w, fields, truth, op)
            d.arm(op['faults'])
            out = attempt(obj.to_file, p)
            fired = list(d.fired)
            d.arm(())
            for x in fired:
                ctx.fault(x)
            err = isinstance(out, kit.Raised)
            ctx.event(i, 'save', op['file'], fired,
                      type(out.exc).__name__ if err else 'ok')
            ctx.state('save', op['how'], tuple(fired), err, len(want['x']))
            if err and isinstance(out.exc, disk.Crash):
                d.forget()
                files.pop(op['file'], None)
                # a new process; the fields come from elsewhere
                w.close()
                w = World()
                fields, lists, truth = again(w, plan, plain)
                continue
            if err:
                bad = [x for x in fired if x not in disk.BENIGN]
                ctx.check(bool(bad), 'save-failed', lambda: f'op {i}: saving '
                          f'raised {out.exc!r} although the disk works '
                          f'(survivable events: {fired})')
                files.pop(op['file'], None)
            else:
                bad = [x for x in fired if x not in disk.BENIGN]
                ctx.check(not bad, 'failure-not-reported', lambda: f'op {i}: '
                          f'saving returned without error although {bad} '
                          f'happened')
                files[op['file']] = want
            no_leak(i, f'a save ({fired})')
            for j, f in enumerate(fields):
                ctx.check(different(values(f), truth[j]) is None,
                          'memory-changed', lambda: f'op {i}: saving changed '
                          f'bore field {j}')
            if not err:
                back(ctx, w, d, i, op['file'], p, want, fired)
            elif os.path.exists(p) or True:
                # once the fault is over, saving again succeeds
                d.arm(())
                attempt_again = attempt(obj.to_file, p)
                ctx.check(not isinstance(attempt_again, kit.Raised),
                          'save-again', lambda: f'op {i}: saving again after '
                          f'{fired} raised {attempt_again.exc!r}')
                files[op['file']] = want
                back(ctx, w, d, i, op['file'], p, want,
                     ['after'] + fired)
                no_leak(i, 'saving again')
        elif k == 'load' and op['file'] in files:
            p = d.path(op['file'])
            d.arm(op['faults'])
            out = attempt(read, w, op['how'], p)
            fired = list(d.fired)
            d.arm(())
            for x in fired:
                ctx.fault(x)
            err = isinstance(out, kit.Raised)
            ctx.event(i, 'load', op['file'], fired,
                      type(out.exc).__name__ if err else 'ok')
            ctx.state('load', op['how'], tuple(fired), err)
            if err:
                bad = [x for x in fired if x not in disk.BENIGN]
                ctx.check(bool(bad), 'load-failed', lambda: f'op {i}: '
                          f'{op["how"]} raised {out.exc!r} although the disk '
                          f'works (survivable events: {fired})')
            else:
                df = different(values(out), files[op['file']])
                ctx.count('fields compared')
                ctx.check(df is None, 'loaded-field', lambda: f'op {i}: '
                          f'{op["how"]} with {fired}: {df}')
                ctx.nontrivial = True
            no_leak(i, f'a load ({fired})')
        elif k == 'restart':
            w.close()
            w = World()
            fields, lists, truth = again(w, plan, plain)
            ctx.count('restarts')
        elif k == 'edit':
            f, v, c = fields[op['i']], truth[op['i']], op['key']
            j = op['j'] % len(v[c])
            v = dict(v, **{c: v[c].copy()})
            v[c][j] = op['value']
            truth[op['i']] = v
            setattr(f, c, v[c].copy())
            setattr(lists[op['i']][j], c, op['value'])
            ctx.count('edits')
            ctx.event(i, 'edit', op['i'], c)
        elif k == 'hand':
            p = d.path(op['file'])
            f = plan['fields'][op['i']]
            d.arm(())
            with disk._real_open(p, 'w') as h:
                h.write(by_hand(f, op['cols'], op['style']))
            want = plain[op['i']]
            if op['cols'] == 5:
                z = np.zeros(len(want['x']))
                want = dict(want, tilt=z, orientation=z)
            files[op['file']] = want
            back(ctx, w, d, i, op['file'], p, want, ['by hand'])
    w.close()


def again(w, plan, plain):
    fields = [make(w, f) for f in plan['fields']]
    return fields, [f.to_boreholes() for f in fields], [dict(t) for t in plain]


def back(ctx, w, d, i, name, p, want, fired):
    """Both readers return what was saved."""
    for how in ('from_file', 'field_from_file'):
        out = attempt(read, w, how, p)
        ctx.count('fields compared')
        ctx.nontrivial = True
        ctx.check(not isinstance(out, kit.Raised), 'not-readable',
                  lambda: f'op {i}: {name} was saved without error ({fired}) '
                  f'but {how} raised {out.exc!r}')
        df = different(values(out), want)
        ctx.check(df is None, 'not-the-saved-field', lambda: f'op {i}: '
                  f'{name} was saved without error ({fired}) but {how} '
                  f'returned another field: {df}')


def simplify(plan):
    for j, f in enumerate(plan['fields']):
        n = len(f['x'])
        if n > 1:
            for m in (n // 2, n - 1):
                fs = list(plan['fields'])
                fs[j] = {k: v[:m] for k, v in f.items()}
                yield dict(plan, fields=fs)
    for i, op in enumerate(plan['ops']):
        for j in range(len(op.get('faults') or ())):
            ops = list(plan['ops'])
            ops[i] = dict(op, faults=op['faults'][:j] + op['faults'][j + 1:])
            yield dict(plan, ops=ops)
