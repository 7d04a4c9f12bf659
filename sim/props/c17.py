"""C17  Boreholes and bore fields answer as they are now."""
import numpy as np

from .. import faults, kit, plots
from ..world import World

ID = 'C17'
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('a run is one history of 6-20 operations (up to 40 in the thorough '
        'tier) on a growing set of boreholes, lists of boreholes and bore '
        'fields: construction, edits of public attributes, slicing, picking, '
        'adding, converting, removing duplicates, questions, rejected and '
        'interrupted calls; after every operation each of them must hold '
        'exactly the values the model gives it, and every answer must be '
        'that of newly built objects with these values in a new process; '
        'non-trivial: a question after an edit or a composition; distinct by '
        'event digest')
REAL = ['pygfunction.borefield', 'pygfunction.boreholes',
        'pygfunction.gfunction and solvers (small fields)',
        'pygfunction.heat_transfer.finite_line_source', 'numpy', 'scipy']
STUBS = ['delivery of interrupts', 'failing numpy routines',
         'layout of figures',
         'process start (private re-execution of the package per world)']
STATE_MEASURE = ('pairs of successive (operation, kind, kinds of the '
                 'objects, inclined boreholes, fault)')
ASSUMPTIONS = ['edits change length, depth, radius and position; a borehole '
               'keeps its inclination',
               'a list made by remove_duplicates holds the boreholes of the '
               'list it was given']
KEYS = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')
EDIT = ('H', 'H', 'D', 'r_b', 'x', 'y')
CTORS = ('rectangle_field', 'staggered_rectangle_field',
         'dense_rectangle_field', 'L_shaped_field', 'U_shaped_field',
         'box_shaped_field', 'circle_field')
MAX = 9


# ---------------------------------------------------------------------------
# plans

def number(rng, key):
    lo, hi = {'H': (20., 250.), 'D': (0.5, 8.), 'r_b': (0.04, 0.12),
              'x': (-30., 60.), 'y': (-30., 60.)}[key]
    return kit.uni(rng, lo, hi, 3) if rng.random() < 0.6 \
        else rng.uniform(lo, hi)


def gen_new(rng):
    r = rng.random()
    if r < 0.3:
        name = rng.choice(CTORS)
        a = {'H': kit.uni(rng, 40., 200., 1), 'D': 4., 'r_b': 0.075}
        if rng.random() < 0.25:
            a['tilt'] = 0.2
        B = kit.uni(rng, 4., 8., 1)
        if name == 'circle_field':
            a.update(N=rng.randint(1, 5), R=B)
        elif name == 'dense_rectangle_field':
            a.update(N_1=rng.randint(1, 3), N_2=rng.randint(1, 3), B=B)
        else:
            a.update(N_1=rng.randint(1, 3), N_2=rng.randint(1, 3), B_1=B,
                     B_2=kit.uni(rng, 4., 8., 1))
        if 'staggered' in name or 'dense' in name:
            a['include_last_borehole'] = rng.random() < 0.5
        return {'op': 'new', 'ctor': name, 'a': a,
                'list': rng.random() < 0.5}
    n = rng.choice([1, 1, 2, 3, 4, 6])
    v = {k: [number(rng, k) for _ in range(n)]
         for k in ('H', 'D', 'r_b', 'x', 'y')}
    if rng.random() < 0.5:
        v['H'] = [v['H'][0]] * n
    if rng.random() < 0.7:
        v['D'], v['r_b'] = [v['D'][0]] * n, [v['r_b'][0]] * n
    if rng.random() < 0.3 and n > 1:
        k = rng.randrange(1, n)
        v['x'][k], v['y'][k] = v['x'][0], v['y'][0]
    v['tilt'] = [0.] * n
    v['orientation'] = [0.] * n
    if rng.random() < 0.3:
        v['tilt'] = [rng.choice([0., 0.15, 0.4]) for _ in range(n)]
        v['orientation'] = [kit.uni(rng, -3., 6., 3) if t else 0.
                            for t in v['tilt']]
    return {'op': 'new', 'v': v, 'kind': rng.choice(['field', 'field', 'list',
                                                     'list', 'bore'])}


DERIVE = ('slice', 'pick', 'at', 'add', 'add', 'add', 'boreholes', 'field',
          'field', 'unique', 'part', 'copy', 'nothing')
ASK = ('values', 'iter', 'at', 'eq', 'eq', 'variant', 'segments', 'distance', 'position',
       'repr', 'dups', 'g', 'g', 'fls', 'plot')
BAD = ('add number', 'add text', 'far index', 'far indices', 'empty',
       'key', 'eq number', 'ratios')


def turned(rng):
    """Questions to an irregular field before and after its boreholes have
    exchanged some of their values: all totals remain."""
    n = rng.choice([3, 3, 4, 5])
    hs = [kit.uni(rng, 60., 110., 1), kit.uni(rng, 120., 200., 1)]
    v = {'H': [rng.choice(hs) for _ in range(n)],
         'D': [4.] * n, 'r_b': [0.075] * n,
         'x': [round(5. * m + rng.uniform(0., 4.), 2) for m in range(n)],
         'y': [rng.choice([0., 6.5]) for _ in range(n)],
         'tilt': [0.] * n, 'orientation': [0.] * n}
    v['H'][0], v['H'][1] = hs
    if rng.random() < 0.4:
        v['D'] = [rng.choice([2., 4.5]) for _ in range(n)]
    ask = {'op': 'ask', 'what': 'g', 'i': -1, 'j': -1, 'k': [1, 1],
           't': [kit.uni(rng, 1e8, 3e9, 0)], 'bc': 'UHTR' if
           rng.random() < 0.2 else 'UBWT', 'n': rng.choice([1, 2]),
           'm': rng.choice(['similarities', 'similarities', 'detailed',
                            'equivalent'])}
    ops = [{'op': 'new', 'v': v, 'kind': rng.choice(['field', 'list'])},
           dict(ask)]
    for _ in range(rng.randint(1, 3)):
        ops.append({'op': 'edit', 'i': -1, 'j': 0, 'value': 1., 'all': False,
                    'k': rng.choice(['H', 'H', 'H', 'D', 'x', 'y']),
                    'turn': rng.choice([1, 1, 2, -1])})
        ops.append(dict(ask))
    return ops


def generate(rng, tier):
    ops = [gen_new(rng)]
    if rng.random() < 0.2:
        ops = turned(rng) if rng.random() < 0.5 else ops + turned(rng)
    for _ in range(rng.randint(6, 20 if tier == 'quick' else 40)):
        r = rng.random()
        i, j = rng.randrange(60), rng.randrange(60)
        if r < 0.1:
            op = gen_new(rng)
        elif r < 0.32:
            k = rng.choice(EDIT)
            op = {'op': 'edit', 'i': i, 'j': j, 'k': k,
                  'value': number(rng, k), 'all': rng.random() < 0.3}
            if rng.random() < 0.25:
                # values of boreholes exchanged
                op['turn'] = rng.choice([1, 1, 2, -1])
        elif r < 0.55:
            op = {'op': 'derive', 'how': rng.choice(DERIVE), 'i': i, 'j': j,
                  'k': [rng.randrange(20), rng.randrange(20)]}
        elif r < 0.93:
            op = {'op': 'ask', 'what': rng.choice(ASK), 'i': i, 'j': j,
                  'k': [rng.randrange(20), rng.randrange(20)]}
            if op['what'] == 'g':
                op['t'] = sorted(kit.uni(rng, 1e6, 3e9, 0)
                                 for _ in range(rng.choice([1, 2])))
                op['m'] = rng.choice(['similarities', 'equivalent',
                                      'detailed'])
                op['bc'] = rng.choice(['UBWT', 'UHTR'])
                op['n'] = rng.choice([1, 2])
            if op['what'] == 'segments':
                n = rng.choice([1, 2, 3, 5])
                op['n'] = n
                op['r'] = kit.ratios(rng, n) if rng.random() < 0.6 else None
        else:
            op = {'op': 'bad', 'how': rng.choice(BAD), 'i': i}
        if op['op'] in ('derive', 'ask', 'new') and rng.random() < 0.15:
            op['fault'] = faults.gen(rng, 120, 20)
        ops.append(op)
        if op['op'] == 'edit' and rng.random() < 0.5:
            # the same question before and after an edit
            asked = [o for o in ops[:-1] if o['op'] == 'ask']
            if asked:
                ops.append(dict(rng.choice(asked[-3:])))
                ops[-1].pop('fault', None)
    return {'ops': ops}


# ---------------------------------------------------------------------------
# objects: [kind, object, model].  The model of a borehole is a dict of its
# values, of a list the list of the dicts of its boreholes, of a field a dict
# of lists.

def rows(h):
    """Values of every borehole, as the model has them."""
    kind, _, v = h
    if kind == 'bore':
        return [[v[k] for k in KEYS]]
    if kind == 'list':
        return [[b[k] for k in KEYS] for b in v]
    return [[v[k][i] for k in KEYS] for i in range(len(v['x']))]


def as_dict(row):
    return dict(zip(KEYS, row))


def as_field(rs):
    return {k: [r[i] for r in rs] for i, k in enumerate(KEYS)}


def build(w, h):
    """The same object, built anew in world `w`."""
    rs = rows(h)
    if h[0] == 'field':
        f = as_field(rs)
        return w.borefield.Borefield(
            *(np.array(f[k]) for k in KEYS[:5]), tilt=np.array(f['tilt']),
            orientation=np.array(f['orientation']))
    bs = [w.boreholes.Borehole(*r[:5], tilt=r[5], orientation=r[6])
          for r in rs]
    return bs[0] if h[0] == 'bore' else bs


def bore_values(b):
    return [float(getattr(b, k)) for k in KEYS] + [bool(b.is_tilted())]


def values(x):
    """What an object holds, or an answer contains."""
    name = type(x).__name__
    if name == 'Borehole':
        return ('bore', tuple(bore_values(x)))
    if name == 'Borefield':
        return ('field', int(len(x)), int(x.nBoreholes)) + tuple(
            tuple(float(v) for v in np.array(getattr(x, k))) for k in KEYS)
    if isinstance(x, (list, tuple)):
        return tuple(values(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(a, b):
    """Difference between two answers, or None; all digits of values, 1e-9 of
    calculated arrays."""
    if isinstance(a, kit.Raised) or isinstance(b, kit.Raised):
        if isinstance(a, kit.Raised) and isinstance(b, kit.Raised):
            return None
        return f'{a!r} instead of {b!r}'
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        return kit.differs(a, b, rtol=1e-9)
    if isinstance(b, tuple) and isinstance(a, tuple):
        if len(a) != len(b):
            return f'{len(a)} values instead of {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y)
            if d:
                return f'[{i}] {d}'
        return None
    if isinstance(b, float) and b != b:
        return None if a != a else f'{a!r} instead of {b!r}'
    return None if a == b else f'{a!r} instead of {b!r}'


def expected(h):
    """`values` of the object according to the model."""
    rs = rows(h)
    if h[0] == 'field':
        return ('field', len(rs), len(rs)) + tuple(
            tuple(r[i] for r in rs) for i in range(len(KEYS)))
    bs = tuple(('bore', tuple(r) + (abs(r[5]) > 1e-6,)) for r in rs)
    return bs[0] if h[0] == 'bore' else bs


# ---------------------------------------------------------------------------

def derive(w, op, a, b):
    """How a new object is made of two others: (call, kind, model), None if
    the operation does not apply."""
    how, (p, q) = op['how'], op['k']
    F = w.borefield.Borefield
    x = a[1]
    ra, rb = rows(a), rows(b)
    n = len(ra)
    if how in ('slice', 'pick', 'at', 'part'):
        if a[0] == 'bore':
            return None
        if how == 'at' or (how == 'pick' and a[0] == 'list'):
            k = p % n - (n if q % 2 else 0)
            m = a[2][k] if a[0] == 'list' else as_dict(ra[k])
            return (lambda: x[k]), 'bore', m
        if how in ('slice', 'part'):
            s = (slice(None), slice(p % n, None, 1 + q % 2),
                 slice(None, None, -1), slice(p % n, p % n + 2))[q % 4]
            if a[0] == 'list':
                return (lambda: x[s]), 'list', a[2][s]
            return (lambda: x[s]), 'field', as_field(ra[s])
        ix = [(p + t * (q + 1)) % n for t in range(1 + q % 4)]
        key = ix
        if p % 3 == 0:
            key = np.array(ix)
        elif p % 3 == 1:
            key = np.zeros(n, dtype=bool)
            key[ix] = True
            ix = [int(i) for i in np.flatnonzero(key)]
        return (lambda: x[key]), 'field', as_field([ra[i] for i in ix])
    if how == 'add':
        if a[0] == 'list' and b[0] == 'list':
            return (lambda: x + b[1]), 'list', a[2] + b[2]
        return (lambda: x + b[1]), 'field', as_field(ra + rb)
    if how == 'nothing':
        if a[0] == 'bore':
            return None
        if a[0] == 'list':
            return (lambda: x + []), 'list', list(a[2])
        return (lambda: [] + x if p % 2 else x + []), 'field', as_field(ra)
    if how == 'boreholes':
        if a[0] != 'field':
            return None
        return (lambda: x.to_boreholes()), 'list', [as_dict(r) for r in ra]
    if how == 'field':
        if a[0] == 'field':
            return None
        return (lambda: F.from_boreholes(x)), 'field', as_field(ra)
    if how == 'copy':
        import copy
        c = copy.deepcopy if p % 2 else copy.copy
        if a[0] == 'list':
            # (a borehole listed twice stays one borehole)
            return (lambda: copy.deepcopy(x)), 'list', copy.deepcopy(a[2])
        return (lambda: c(x)), a[0], \
            as_dict(ra[0]) if a[0] == 'bore' else as_field(ra)
    if how == 'unique':
        if a[0] != 'list':
            return None
        r_b = max(r[2] for r in ra)
        out = [i for i in range(n) if not any(
            np.hypot(ra[i][3] - ra[j][3], ra[i][4] - ra[j][4]) < r_b
            for j in range(i))]
        return (lambda: w.boreholes.remove_duplicates(x)), 'list', \
            [a[2][i] for i in out]
    raise ValueError(how)


def ask(w, op, kind, x, other, n):
    """An answer of `x` in world `w`."""
    what, (p, q) = op['what'], op['k']

    def bore(y, k):
        return y if type(y).__name__ == 'Borehole' else y[k % len(y)]
    if what == 'values':
        return values(x)
    if what == 'iter':
        return values([x] if kind == 'bore' else [b for b in x])
    if what == 'at':
        return values(bore(x, p))
    if what == 'eq':
        f = w.borefield.Borefield
        a = x if kind == 'field' else f.from_boreholes(x)
        return (a == other, a != other, a == a)
    if what == 'variant':
        # The field, and itself with one quantity exchanged or changed
        f = w.borefield.Borefield
        a = x if kind == 'field' else f.from_boreholes(x)
        v = {k: np.array(getattr(a, k), dtype=float) for k in KEYS}
        key = KEYS[p % 5]
        v[key] = vary(v[key], q)
        b = f(*(v[k] for k in KEYS[:5]), tilt=v['tilt'],
              orientation=v['orientation'])
        return (a == b, a != b, b == a)
    if what == 'segments':
        r = None if op['r'] is None else np.array(op['r'])
        return values(bore(x, p).segments(op['n'], segment_ratios=r))
    if what == 'distance':
        return (float(bore(x, p).distance(bore(other, q))),
                float(bore(x, q).distance(bore(x, p))))
    if what == 'position':
        b = bore(x, p)
        return values((b.position(), b.is_tilted(), b.is_vertical()))
    if what == 'repr':
        return repr(bore(x, p))
    if what == 'dups':
        return values(w.boreholes.find_duplicates(
            [x, x] if kind == 'bore' else x))
    if what == 'fls':
        a = bore(x, p)
        b = bore(other, q)
        return np.array(w.heat_transfer.finite_line_source(
            np.array([1e6, 1e8]), 1e-6, a, b))
    if what == 'plot':
        v = w.borefield.Borefield.visualize_field
        return tuple(plots.show(v, x)) if kind == 'field' else \
            tuple(plots.show(w.boreholes.visualize_field,
                             [x] if kind == 'bore' else list(x)))
    if what == 'g':
        opt = {'nSegments': op['n'], 'segment_ratios': None}
        t = np.array(op['t'])
        if kind == 'field' and q % 2:
            return np.array(x.evaluate_g_function(
                1e-6, t, method=op['m'], boundary_condition=op['bc'],
                options=opt))
        g = w.gfunction.gFunction(
            x, 1e-6, time=t, method=op['m'], boundary_condition=op['bc'],
            options=opt)
        return np.array(g.gFunc)
    raise ValueError(what)


def vary(v, q):
    if q % 3 == 0:
        return np.roll(v, 1)
    v = v.copy()
    v[q % len(v)] += 0.01 if q % 3 == 1 else 1.5
    return v


def stated(op, a, b, out):
    """Where an answer is not what the values of the model say, or None."""
    if isinstance(out, kit.Raised):
        return None
    what, (p, q) = op['what'], op['k']
    ra, rb = rows(a), rows(b)
    if what in ('eq', 'variant'):
        if what == 'variant':
            v = as_field(ra)
            v[KEYS[p % 5]] = list(vary(np.array(v[KEYS[p % 5]]), q))
            rb = [[v[k][i] for k in KEYS] for i in range(len(ra))]
        if ra == rb:
            equal = True
        elif len(ra) != len(rb) or np.max(np.abs(
                np.array(ra) - np.array(rb))) > 5e-3:
            equal = False
        else:
            return None
        want = (equal, not equal, True if what == 'eq' else equal)
        return None if tuple(map(bool, out)) == want else \
            f'{out} for fields that are ' + ('' if equal else 'not ') + 'equal'
    u, v = ra[p % len(ra)], rb[q % len(rb)]
    if what == 'distance':
        v2, u2 = ra[q % len(ra)], ra[p % len(ra)]
        want = np.array([max(u[2], np.hypot(u[3] - v[3], u[4] - v[4])),
                         max(v2[2], np.hypot(v2[3] - u2[3], v2[4] - u2[4]))])
        return kit.differs(np.array(out), want, rtol=1e-9)
    if what == 'segments':
        r = np.full(op['n'], 1. / op['n']) if op['r'] is None \
            else np.array(op['r'])
        z = np.cumsum(r) * u[0] - r * u[0]
        t, o = u[5], u[6]
        want = np.stack([r * u[0], u[1] + z * np.cos(t), 0. * z + u[2],
                         u[3] + z * np.sin(t) * np.cos(o),
                         u[4] + z * np.sin(t) * np.sin(o),
                         0. * z + t, 0. * z + o], axis=1)
        got = np.array([s[1][:7] for s in out])
        return f'{len(got)} segments' if got.shape != want.shape else \
            kit.differs(got, want, rtol=1e-9, atol=1e-9)
    if what == 'position':
        want = ((u[3], u[4]), abs(u[5]) > 1e-6, not abs(u[5]) > 1e-6)
        return None if (tuple(out[0]), out[1], out[2]) == want else \
            f'{out} for a borehole at {want}'
    return None


def bad(w, op, a):
    x = a[1]
    how = op['how']
    if how == 'add number':
        return x + 3
    if how == 'add text':
        return x + 'field'
    if how == 'far index':
        return x[99]
    if how == 'far indices':
        return x[[0, 99]]
    if how == 'empty':
        return w.borefield.Borefield.from_boreholes([])
    if how == 'key':
        return x['H']
    if how == 'eq number':
        return x == 3
    b = x if a[0] == 'bore' else x[0]
    return b.segments(3, segment_ratios=np.array(['a', 'b', 'c']))


def execute(plan, ctx):
    w = World()
    pool = []
    edited = False

    def check_all(i, what):
        for k, h in enumerate(pool):
            d = same(kit.call(values, h[1]), expected(h))
            ctx.check(d is None, 'values-changed', lambda: f'op {i}: after '
                      f'{what}, object {k} ({h[0]}): {d}')

    def add(h):
        pool.append(h)
        if len(pool) > MAX:
            del pool[0]

    def guarded(i, op, f):
        """The result of a call, made again if a fault stopped it."""
        inj = faults.make(op.get('fault'))
        with inj:
            out = kit.call(f)
        if not inj.fired:
            return out
        ctx.fault(faults.name(op['fault']))
        ctx.state('fault', op['op'], getattr(inj, 'where', None))
        check_all(i, f'{op["op"]} stopped by a fault')
        return kit.call(f)

    for i, op in enumerate(plan['ops']):
        ctx.sim_time += 1.
        k = op['op']
        if k == 'new':
            new(w, ctx, i, op, add, guarded)
            check_all(i, 'new')
            continue
        if not pool:
            continue
        a = pool[op['i'] % len(pool)]
        b = pool[op.get('j', 0) % len(pool)]
        ctx.state(k, op.get('how') or op.get('what') or op.get('k'), a[0],
                  b[0], any(r[5] for r in rows(a)), len(rows(a)) > 1)
        if k == 'edit':
            edit(op, a)
            edited = True
            ctx.count('edits')
            ctx.event(i, 'edit', a[0], op['k'])
        elif k == 'derive':
            r = derive(w, op, a, b)
            if r is None:
                continue
            f, kind, model = r
            out = guarded(i, op, f)
            ctx.event(i, 'derive', op['how'], repr(out)
                      if isinstance(out, kit.Raised) else kind)
            ctx.check(not isinstance(out, kit.Raised), 'composition-failed',
                      lambda: f'op {i}: {op["how"]} of {a[0]} (and {b[0]}) '
                      f'{out!r}: {out.exc}')
            h = [kind, out, model]
            d = same(kit.call(values, out), expected(h))
            ctx.count('compositions compared')
            ctx.check(d is None, 'composition', lambda: f'op {i}: '
                      f'{op["how"]} of {a[0]} (and {b[0]}): {d}')
            add(h)
        elif k == 'ask':
            if not applies(op, a, b):
                continue
            out = guarded(i, op, lambda: ask(w, op, a[0], a[1], b[1],
                                             len(rows(a))))
            wf = World()
            fa = build(wf, a)
            fb = fa if b is a else build(wf, b)
            want = kit.call(ask, wf, op, a[0], fa, fb, len(rows(a)))
            wf.close()
            ctx.event(i, 'ask', op['what'], out if isinstance(
                out, np.ndarray) else repr(out)[:200])
            ctx.count('answers compared')
            ctx.nontrivial = ctx.nontrivial or edited or i > 1
            d = same(out, want) or stated(op, a, b, out)
            ctx.check(d is None, 'answer', lambda: f'op {i}: {op["what"]} '
                      f'of {a[0]}: {d}'
                      + (f' ({out.exc!r})' if isinstance(out, kit.Raised)
                         else ''))
        else:
            out = kit.call(bad, w, op, a)
            ctx.event(i, 'bad', op['how'], type(out).__name__)
            if isinstance(out, kit.Raised):
                ctx.fault('rejected call')
        check_all(i, f'{k} {op.get("how") or op.get("what") or ""}')
    w.close()


def applies(op, a, b):
    if op['what'] == 'fls':
        # (a borehole and its neighbour, not one on top of the other)
        p, q = op['k']
        ra, rb = rows(a), rows(b)
        u, v = ra[p % len(ra)], rb[q % len(rb)]
        return u is v or np.hypot(u[3] - v[3], u[4] - v[4]) > 0.5 \
            or u[3:5] == v[3:5]
    if op['what'] == 'g':
        if a[0] == 'bore' or len(rows(a)) > 6:
            return False
        ra = rows(a)
        if op['m'] == 'equivalent' and any(r[5] for r in ra):
            return False
        return all(np.hypot(u[3] - v[3], u[4] - v[4]) > 0.5
                   for k, u in enumerate(ra) for v in ra[:k])
    if op['what'] == 'plot':
        return op['k'][0] < 4
    return True


def edit(op, a):
    kind, x, v = a
    key, value = op['k'], op['value']
    n = len(rows(a))
    j = op['j'] % n
    if 'turn' in op:
        if kind == 'bore':
            return
        t = op['turn'] % n
        if kind == 'field':
            v[key] = v[key][t:] + v[key][:t]
            setattr(x, key, np.array(v[key]))
            return
        was = [b[key] for b in v]
        for m in range(n):
            v[m][key] = was[(m + t) % n]
            setattr(x[m], key, v[m][key])
        return
    if kind == 'field':
        new = [value] * n if op['all'] and key not in ('x', 'y') \
            else list(v[key])
        new[j] = value
        v[key] = new
        setattr(x, key, np.array(new))
    elif kind == 'bore':
        v[key] = value
        setattr(x, key, value)
    else:
        for m in range(n) if op['all'] and key not in ('x', 'y') else [j]:
            v[m][key] = value
            setattr(x[m], key, value)


def new(w, ctx, i, op, add, guarded):
    if 'ctor' in op:
        def make(u):
            o = u.boreholes if op['list'] else u.borefield.Borefield
            return getattr(o, op['ctor'])(**op['a'])
        out = guarded(i, op, lambda: make(w))
        wf = World()
        want = kit.call(make, wf)
        got, ref = kit.call(values, out), kit.call(values, want)
        if isinstance(out, kit.Raised):
            got = out
        if isinstance(want, kit.Raised):
            ref = want
        wf.close()
        ctx.event(i, 'new', op['ctor'], repr(got)[:60])
        d = same(got, ref)
        ctx.check(d is None, 'constructor', lambda: f'op {i}: '
                  f'{op["ctor"]}: {d}')
        if isinstance(out, kit.Raised):
            return
        if op['list']:
            add(['list', out, [as_dict(b[1][:7]) for b in ref]])
        else:
            add(['field', out, {k: list(ref[3 + m])
                                for m, k in enumerate(KEYS)}])
        return
    v = op['v']
    kind = op['kind']
    n = len(v['x'])
    rs = [[float(v[k][m]) for k in KEYS] for m in range(n)]
    h = [kind, None, as_field(rs) if kind == 'field' else
         as_dict(rs[0]) if kind == 'bore' else [as_dict(r) for r in rs]]
    out = guarded(i, op, lambda: build(w, h))
    ctx.event(i, 'new', kind, n)
    ctx.check(not isinstance(out, kit.Raised), 'constructor',
              lambda: f'op {i}: {kind} of {n}: {out.exc!r}')
    add([kind, out, h[2]])


def simplify(plan):
    for i, op in enumerate(plan['ops']):
        if 'fault' in op:
            ops = list(plan['ops'])
            ops[i] = {k: v for k, v in op.items() if k != 'fault'}
            yield dict(plan, ops=ops)
