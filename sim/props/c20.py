"""C20: sets of numbers are values: right, unchanged by what they are used in, and independent, along any history."""
import copy
import json
import math
import pickle
import random

import rng as rng_
import shrinkers

RUNS = {'quick': 12000, 'thorough': 600000}
LEVEL = 'exploration'
RULE = ('one evaluation = one history of 6 to 40 operations by 1 to 4 interleaved clients on a shared pool of intervals and unions of intervals, '
        'suspended decompositions, in-place edits, restarts, failing arguments and failing allocations included; after each operation its result and every set of the '
        'pool are compared with exact sets of cells of the real line; distinct by (kinds of operations in order of first use, faults fired); '
        'non-trivial = at least one edit, fault or suspension lay between two judged operations')
COMPONENTS = {
    'real': ['jpt.base.intervals (compiled)', 'numpy'],
    'simulated': ['clients and the order of their steps', 'iterators handed to the package (suspended, failing, running other operations)',
                  "numpy's allocator (failures, memory contents)", "state of numpy's global random generator", 'restarts (pickle, JSON, text, deep copies)'],
}
ASSUMPTIONS = ['bounds from a fixed symmetric grid of 21 numbers at least 1e-9 apart, and infinity (open)', 'infinite sets are not sampled']

INC, EXC = 1, 2
POS = [2. ** -30, .25, 1., 1. + 2. ** -20, 1.5, 2., 3., 7.5, 100., 1e6]
GRID = sorted([-g for g in POS] + [0.] + POS)
K = len(GRID)
ALL = (1 << (2 * K + 1)) - 1
NINF, PINF = 1 << (2 * K + 1), 1 << (2 * K + 2)
IDX = {g: i for i, g in enumerate(GRID)}
INF = math.inf


# the reference ------------------------------------------------------------------------------------------------------

def mask_of(rep):
    """cells of one interval (lower, upper, left, right); None if it is none"""
    lo, up, l, r = rep
    if l not in (INC, EXC) or r not in (INC, EXC) or lo != lo or up != up or lo > up:
        return None
    if lo == up:
        if l == EXC or r == EXC:
            return 0
        return (1 << (2 * IDX[lo] + 1)) if lo in IDX else (NINF if lo == -INF else PINF if lo == INF else None)
    out = 0
    if lo == -INF:
        a = 0
        if l == INC:
            out |= NINF
    elif lo in IDX:
        a = 2 * IDX[lo] + (1 if l == INC else 2)
    else:
        return None
    if up == INF:
        b = 2 * K
        if r == INC:
            out |= PINF
    elif up in IDX:
        b = 2 * IDX[up] + (1 if r == INC else 0)
    else:
        return None
    for c in range(a, b + 1):
        out |= 1 << c
    return out


def mask(reps):
    out = 0
    for r in reps:
        m = mask_of(r)
        if m is None:
            return None
        out |= m
    return out


def mirror(m):
    out = 0
    for c in range(2 * K + 1):
        if m >> c & 1:
            out |= 1 << (2 * K - c)
    return out


def runs(m):
    """maximal stretches of adjacent cells as (first, last)"""
    out = []
    for c in range(2 * K + 1):
        if m >> c & 1:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return out


def interval(a, b):
    """(lower, upper, left, right) of the cells a to b"""
    lo, l = (GRID[a // 2], INC) if a & 1 else ((GRID[a // 2 - 1], EXC) if a else (-INF, EXC))
    up, r = (GRID[b // 2], INC) if b & 1 else ((GRID[b // 2], EXC) if b < 2 * K else (INF, EXC))
    return lo, up, l, r


def normal(m):
    return [interval(a, b) for a, b in runs(m)]


def cell(x):
    """bit of the cell of the number x"""
    if x == INF:
        return PINF
    if x == -INF:
        return NINF
    if x in IDX:
        return 1 << (2 * IDX[x] + 1)
    return 1 << (2 * sum(g < x for g in GRID))


def lowest(m):
    a = runs(m)
    if not a:
        return math.nan
    lo, _, l, _ = interval(*a[0])
    import numpy as np
    if lo == -INF:
        return float(np.finfo(np.float64).min)
    return lo if l == INC else float(np.nextafter(lo, lo + 1))


# plans --------------------------------------------------------------------------------------------------------------

BINARY = ['union', 'intersection', 'difference', 'intersections']
UNARY = ['complement', 'simplify', 'xmirror', 'copy']
RESTART = ['pickle', 'json', 'text', 'deepcopy', 'rebuild', 'rebuild_fails']
JUDGE = ['contains', 'contains_set', 'intersects', 'equal', 'ends', 'points', 'flags']
EDIT = ['edit', 'edit_member', 'drop_member', 'add_member']


def gen_interval(rng):
    p = rng.random()
    if p < .08:
        x = rng.choice(GRID)
        return [x, x] + rng.choice([[EXC, EXC], [INC, EXC], [EXC, INC]])
    if p < .25:
        x = rng.choice(GRID)
        return [x, x, INC, INC]
    lo, up = sorted(rng.sample(GRID, 2))
    l, r = rng.choice([INC, EXC]), rng.choice([INC, EXC])
    if p > .93:
        lo, l = -INF, EXC
    if rng.random() < .08:
        up, r = INF, EXC
    return [lo, up, l, r]


def gen_near(rng, last):
    """an interval that touches the last one"""
    x = rng.choice(last[:2])
    if abs(x) == INF:
        return gen_interval(rng)
    p = rng.random()
    if p < .35:
        return [x, x, INC, INC]
    others = [g for g in GRID if g != x]
    lo, up = sorted([x, rng.choice(others)])
    return [lo, up, rng.choice([INC, EXC]), rng.choice([INC, EXC])]


def gen_set(rng):
    if rng.random() < .4:
        return ['i', gen_interval(rng)]
    out = []
    for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4])):
        out.append(gen_near(rng, out[-1]) if out and rng.random() < .45 else gen_interval(rng))
    return ['s', out]


def gen_op(rng):
    p = rng.random()
    k = rng.choice(BINARY if p < .3 else UNARY if p < .45 else JUDGE if p < .65 else RESTART if p < .73 else EDIT if p < .85 else
                   ['chop', 'chop', 'next', 'next', 'next', 'sample', 'sample', 'linspace'])
    op = {'k': k, 'a': rng.randrange(1000), 'b': rng.randrange(1000), 'x': rng.choice(GRID) if rng.random() < .6 else rng.choice(GRID) + rng.choice([.1, 2. ** -31, 2. ** -21]),
          'rep': gen_interval(rng)}
    if k in ('chop', 'rebuild_fails', 'rebuild'):
        op['points'] = [rng.choice(GRID) if rng.random() < .9 else rng.choice([INF, -INF, 12.]) for _ in range(rng.randint(0, 4))]
        op['points'] = [p for p in op['points'] if p in IDX or abs(p) == INF]
        op['lazy'] = rng.choice(['list', 'set', 'once', 'once'])
        op['fail'] = rng.randint(0, 3)
    if k in BINARY + UNARY + ['chop'] and rng.random() < .3:
        op['poke'] = rng.randrange(1000)
    if k in ('sample', 'linspace'):
        op.update(n=rng.randint(1, 6), mode=rng.choice([0, 1, 2, 4]), fail=rng.choice([-1, -1, 0, 1, 2, 3]), rng=rng.choice([None, None, 'low', 'high']))
    return op


def gen(rng, idx):
    n = rng.choice([1, 1, 2, 3, 4])
    return {'init': [gen_set(rng) for _ in range(rng.randint(2, 6))],
            'steps': [[rng.randrange(n), gen_op(rng)] for _ in range(rng.randint(6, 40))],
            'seed': rng.getrandbits(32)}


# runs ---------------------------------------------------------------------------------------------------------------

class Bad(Exception):
    pass


class Planned(Exception):
    pass


def run(plan, env, stage, carry):
    import numpy as np
    from jpt.base import intervals as iv
    CS, RS = iv.ContinuousSet, iv.RealSet
    env.ms.ms_install()
    np.random.seed(plan['seed'] & 0xffffffff)
    consts = {'R': (iv.R, [(-INF, INF, EXC, EXC)]), 'EMPTY': (iv.EMPTY, [(0., 0., EXC, EXC)])}
    pool = []        # [object, list of (lower, upper, left, right)]
    chops = {}       # client -> [generator, expected pieces, index]

    def make(spec):
        return CS(*spec[1]) if spec[0] == 'i' else RS([CS(*r) for r in spec[1]])

    def reps(o):
        if isinstance(o, CS):
            return [(float(o.lower), float(o.upper), int(o.left), int(o.right))]
        if isinstance(o, RS):
            return [reps(i)[0] for i in o.intervals]
        raise Bad('no set but %s' % type(o).__name__)

    def add(o):
        if len(pool) >= 10:
            pool.pop(0)
        pool.append([o, reps(o)])

    def check(what):
        for name, (o, want) in consts.items():
            if reps(o) != want:
                raise Bad('%s changed the constant %s into %s' % (what, name, reps(o)))
        for o, want in pool:
            if reps(o) != want:
                raise Bad('%s changed another set from %s into %s' % (what, want, reps(o)))

    def show(r):
        return ' u '.join('%s%s,%s%s' % ('[' if l == 1 else '(', a, b, ']' if q == 1 else ')') for a, b, l, q in r) or 'nothing'

    def judge(res, want, what, simple=True):
        got = mask(reps(res))
        if got != want:
            raise Bad('%s is %s instead of %s' % (what, show(reps(res)), show(normal(want))))
        if simple and isinstance(res, RS):
            cells = [mask_of(r) for r in reps(res)]
            if 0 in cells or len(cells) < 2 or any(a & b for i, a in enumerate(cells) for b in cells[:i]):
                raise Bad('%s is not simplified: %s' % (what, show(reps(res))))

    def same(got, want, what):
        if bool(got) != bool(want):
            raise Bad('%s is %s instead of %s' % (what, bool(got), bool(want)))

    for s in plan['init']:
        add(make(s))
    between = judged = 0
    kinds = []

    def poke(o, r):
        """edit a result in place"""
        i = o if isinstance(o, CS) else (o.intervals[r % len(o.intervals)] if o.intervals else None)
        if i is None:
            o.intervals.append(CS(1, 2))
        else:
            i.lower, i.upper, i.left, i.right = [(0., 3., INC, EXC), (-2., -2., INC, INC), (-1., 7.5, EXC, EXC)][r % 3]

    def step(client, op):
        nonlocal between
        k = op['k']
        a = pool[op['a'] % len(pool)]
        b = pool[op['b'] % len(pool)]
        A, B = mask(a[1]), mask(b[1])
        ta, tb = show(a[1]), show(b[1])
        set_a, set_b = isinstance(a[0], RS), isinstance(b[0], RS)
        if k in BINARY:
            if not set_a and set_b and k in ('union', 'intersection'):
                a, b, A, B, ta, tb, set_a, set_b = b, a, B, A, tb, ta, set_b, set_a
            if k == 'intersections':
                if not (set_a and set_b):
                    return None
                parts = [x & y for x in map(mask_of, a[1]) for y in map(mask_of, b[1])]
                parts = sorted({p for p in parts if p}, key=lambda p: p & -p)
                if any(p & q for i, p in enumerate(parts) for q in parts[:i]):
                    return None
                res = a[0].intersections(b[0])
                what = 'intersections of %s with %s' % (ta, tb)
                judge(res, A & B, what, simple=False)
                if [mask_of(r) for r in reps(res)] != parts:
                    raise Bad('%s are %s' % (what, reps(res)))
            else:
                ops = {'union': lambda: a[0] | b[0] if op['a'] & 1 else a[0].union(b[0]),
                       'intersection': lambda: a[0] & b[0] if op['a'] & 1 else a[0].intersection(b[0]),
                       'difference': lambda: a[0] - b[0] if op['a'] & 1 and not set_a else a[0].difference(b[0])}
                want = {'union': A | B, 'intersection': A & B, 'difference': A & ~B}[k]
                res = ops[k]()
                judge(res, want, '%s of %s with %s' % (k, ta, tb), simple=set_a and not (k == 'difference' and not B))
        elif k in UNARY:
            res = getattr(a[0], k)()
            want = {'complement': lambda: ALL & ~A, 'xmirror': lambda: mirror(A)}.get(k, lambda: A)()
            judge(res, want, '%s of %s' % (k, ta), simple=k in ('complement', 'simplify'))
            if k == 'copy' and reps(res) != a[1]:
                raise Bad('copy of %s is %s' % (ta, show(reps(res))))
        elif k in RESTART:
            if k == 'pickle':
                i = pool.index(a)
                data = pickle.loads(pickle.dumps([o for o, _ in pool]))
                for j, (o, (_, r)) in enumerate(zip(data, pool)):
                    if reps(o) != r:
                        raise Bad('%s came back from a pickle as %s' % (show(r), show(reps(o))))
                    pool[j][0] = o
                res, a = None, pool[i]
            elif k == 'json':
                res = type(a[0]).from_json(json.loads(json.dumps(a[0].to_json())))
            elif k == 'deepcopy':
                res = copy.deepcopy(a[0])
            elif k == 'text':
                rep = a[1][0] if a[1] else None
                if rep is None or not mask_of(rep) or rep[0] == rep[1]:
                    return None
                o = a[0].intervals[0] if set_a else a[0]
                res = CS.parse(o.pfmt(notation='sq') if op['a'] & 1 else str(o))
                if reps(res) != [rep]:
                    raise Bad('%s printed and parsed again is %s' % (show([rep]), show(reps(res))))
                return res
            else:
                members = [CS(*r) for r in a[1]]
                n = min(op['fail'], len(members))

                def source():
                    for i, m in enumerate(members):
                        if k == 'rebuild_fails' and i == n:
                            raise Planned()
                        if i == 0 and op['lazy'] == 'once':
                            a[0].simplify()         # other work while the set is put together
                        yield m
                    if k == 'rebuild_fails':
                        raise Planned()
                try:
                    res = RS(source())
                    if k == 'rebuild_fails':
                        raise Bad('an error of the argument was lost')
                except Planned:
                    env.count('fault:failing argument')
                    between += 1
                    return None
                if members:      # the parts belong to the caller
                    members[0].upper = members[0].lower
            if res is not None and reps(res) != a[1]:
                raise Bad('%s came back from %s as %s' % (ta, k, show(reps(res))))
            between += 1
            env.count('fault:restart')
        elif k == 'contains':
            x = op['x']
            want = bool(A & cell(x))
            same(a[0].contains_value(x), want, '%s in %s' % (x, ta))
            same(x in a[0], want, '%s in %s' % (x, ta))
            return None
        elif k == 'contains_set':
            if B and all(mask_of(r) for r in b[1]):
                same(a[0].contains_interval(b[0]), B & ~A == 0, '%s contains %s' % (ta, tb))
                if not set_a:
                    same(b[0] in a[0], B & ~A == 0, '%s in %s' % (tb, ta))
            return None
        elif k == 'intersects':
            same(a[0].intersects(b[0]), A & B, '%s intersects %s' % (ta, tb))
            same(a[0].isdisjoint(b[0]), not A & B, '%s is disjoint with %s' % (ta, tb))
            return None
        elif k == 'equal':
            same(a[0] == b[0], A == B, '%s == %s' % (ta, tb))
            same(a[0] != b[0], A != B, '%s != %s' % (ta, tb))
            if A == B and hash(a[0]) != hash(b[0]):
                raise Bad('%s and %s are equal but hash differently' % (ta, tb))
            return None
        elif k == 'ends':
            same(a[0].isempty(), not A, '%s is empty' % ta)
            same(bool(a[0]), A, 'bool(%s)' % ta)
            if A:
                same(a[0].isninf(), A & 1, '%s reaches minus infinity' % ta)
                same(a[0].ispinf(), A >> 2 * K & 1, '%s reaches infinity' % ta)
            low = a[0].fst()
            if not (low == lowest(A) or low != low and not A):
                raise Bad('lowest number of %s is %r' % (ta, low))
            n = sum(1 for p, q in runs(A) if p == q and p & 1) if all(p == q and p & 1 for p, q in runs(A)) else INF
            if a[0].size() != n:
                raise Bad('size of %s is %r' % (ta, a[0].size()))
            return None
        elif k == 'points':
            if A:
                x = a[0].any_point()
                if not A & cell(x):
                    raise Bad('a point of %s is %r' % (ta, x))
            if not set_a and not set_b and A and B:
                u = runs(A | B)
                same(a[0].contiguous(b[0]), not A & B and len(u) == 1, '%s contiguous with %s' % (ta, tb))
            return None
        elif k == 'flags':
            # the same numbers, written with ends of the other kind
            if set_a or not A or A & 1 or A >> 2 * K & 1:
                return None
            l, r = op['a'] % 2 + 1, op['b'] % 2 + 1
            lo, hi = a[0].min, a[0].max
            res = [('ends', a[0].ends(l, r)), ('boundaries', a[0].boundaries(l, r))]
            if B and not set_b and A & B:
                i = a[0].intersection(b[0])
                judge(i, A & B, 'intersection of %s with %s' % (ta, tb))
                res.append(('intersection', a[0].intersection(b[0], l, r)))
            for name, o in res:
                want = [lo, hi] if name != 'intersection' else [i.min, i.max]
                if [o.min, o.max] != want or (o.left, o.right) != (l, r):
                    raise Bad('%s of %s with ends %d, %d is %s' % (name, ta, l, r, reps(o)))
            return None
        elif k in EDIT:
            between += 1
            env.count('fault:edit')
            o, r = a
            rep = tuple(op['rep'])
            if not set_a or k == 'edit':
                if set_a:
                    return None
                o.lower, o.upper, o.left, o.right = rep
                a[1] = [rep]
            elif k == 'add_member':
                if len(r) < 5:
                    o.intervals.append(CS(*rep))
                    a[1] = r + [rep]
            elif r:
                i = op['b'] % len(r)
                if k == 'drop_member':
                    o.intervals.pop(i)
                    a[1] = r[:i] + r[i + 1:]
                else:
                    m = o.intervals[i]
                    m.lower, m.upper, m.left, m.right = rep
                    a[1] = r[:i] + [rep] + r[i + 1:]
            return None
        elif k == 'chop':
            pts = op['points']
            arg = {'list': lambda: list(pts), 'set': lambda: set(pts), 'once': lambda: iter(list(pts))}[op['lazy']]()
            pieces = []
            for p, q in runs(A):
                start = p
                for g in sorted(IDX[x] for x in set(pts) if x in IDX):
                    c = 2 * g + 1
                    if start < c <= q:
                        pieces.append((start, c - 1))
                        start = c
                pieces.append((start, q))
            gen_ = a[0].chop(arg)
            chops[client] = [gen_, [interval(*p) for p in pieces], 0, '%s chopped at %s' % (ta, pts)]
            return advance(client)
        elif k == 'next':
            return advance(client)
        elif k in ('sample', 'linspace'):
            if not A or A & 1 or A >> 2 * K & 1 or k == 'linspace' and (set_a or A & (A - 1) == 0):
                return None
            uniform = np.random.uniform
            if op['rng']:       # states of the generator in which it yields its extreme values
                def extreme(low=0., high=1., size=None):
                    x = np.float64(low if op['rng'] == 'low' or not low < high else max(low, np.nextafter(high, low)))
                    return x if size is None else np.full(size, x)
                np.random.uniform = extreme
                env.count('fault:extreme random numbers')
            env.ms.ms_config(op['mode'], op['x'].__hash__() & 0xffff, 0xAB, op['fail'], 0)
            try:
                vals = list(a[0].sample(op['n']) if k == 'sample' else a[0].linspace(op['n']))
            except MemoryError:
                if op['fail'] < 0:
                    raise
                env.count('fault:allocation')
                between += 1
                return None
            finally:
                env.ms.ms_config(0, 0, 0, -1, 0)
                np.random.uniform = uniform
            if len(vals) != op['n']:
                raise Bad('%d numbers instead of %d' % (len(vals), op['n']))
            for v in vals:
                near = [float(v)] + ([float(v) - 1e-7, float(v) + 1e-7] if k == 'linspace' else [])      # its ends are only nearly exact
                if not any(A & cell(x) for x in near):
                    raise Bad('%s of %s yields %r' % (k, ta, float(v)))
            if k == 'linspace' and vals != sorted(vals):
                raise Bad('linspace of %s is %s' % (ta, vals))
            return None
        if op.get('poke') is not None and res is not None:
            check(k)
            poke(res, op['poke'])
            env.count('fault:edit of a result')
            between += 1
            check('an edit of the result of %s' % k)
            return None
        return res

    def advance(client):
        nonlocal between
        if client not in chops:
            return None
        g = chops[client]
        try:
            piece = next(g[0])
        except StopIteration:
            del chops[client]
            if g[2] != len(g[1]):
                raise Bad('%s: %d of %d pieces' % (g[3], g[2], len(g[1])))
            return None
        if g[2] >= len(g[1]) or reps(piece) != [g[1][g[2]]]:
            raise Bad('%s: piece %d is %s instead of %s' % (g[3], g[2], show(reps(piece)), show([g[1][g[2]]] if g[2] < len(g[1]) else [])))
        g[2] += 1
        between += 1
        env.count('suspension')
        return piece

    out = {}
    for n, (client, op) in enumerate(plan['steps']):
        if not pool:
            break
        env.count('op:' + op['k'])
        if op['k'] not in kinds:
            kinds.append(op['k'])
        try:
            res = step(client, op)
            judged += 1
            check(op['k'])
            env.event(n, op['k'], None if res is None else reps(res))
        except Bad as e:
            out['violation'] = {'kind': 'set', 'site': op['k'], 'msg': 'step %d (%s): %s' % (n, op['k'], e)}
            env.event('bad', str(e))
            break
        except Exception as e:
            import traceback
            env.event('error', type(e).__name__)
            tb = traceback.extract_tb(e.__traceback__)
            if not any('intervals' in f.filename for f in tb):
                raise
            out['violation'] = {'kind': 'error', 'site': op['k'], 'msg': 'step %d (%s) on %s: %s: %s' % (
                n, op['k'], show(pool[op['a'] % len(pool)][1]), type(e).__name__, e)}
            break
        if res is not None:
            add(res)
    env.count('steps', judged)
    out['sample'] = {'init': plan['init'], 'steps': [[c, o['k']] for c, o in plan['steps']]}
    if judged and between:
        out['sets'] = {'distinct': [rng_.derive(repr(kinds), between)]}
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 1)
    yield from shrinkers.drop_items(plan, ['init'], 1)
    for i, s in enumerate(plan['init']):
        if s[0] == 's':
            yield from shrinkers.drop_items(plan, ['init', i, 1])
    for i, (_, op) in enumerate(plan['steps']):
        if op.get('poke') is not None:
            yield shrinkers._with(plan, ['steps', i, 1], {k: v for k, v in op.items() if k != 'poke'})
