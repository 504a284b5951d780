"""C21: piecewise functions are values: pointwise right, unchanged by what they are used in, and independent, along any history."""
import copy
import json
import math
import pickle

import rng as rng_
import shrinkers

RUNS = {'quick': 9000, 'thorough': 400000}
LEVEL = 'exploration'
RULE = ('one evaluation = one history of 5 to 30 operations by 1 to 3 interleaved clients on a shared pool of piecewise constant and linear functions, '
        'suspended iterations, in-place edits, restarts, failing arguments and failing allocations included; after each operation its result is compared '
        'point by point with the operation on the values of its operands and every function of the pool with what it was; '
        'distinct by (kinds of operations in order of first use, faults fired); non-trivial = at least one edit, fault or suspension lay between judged operations')
COMPONENTS = {
    'real': ['jpt.base.functions, jpt.base.intervals (compiled)', 'numpy'],
    'simulated': ['clients and the order of their steps', 'iterators handed to the package (failing, running other operations)',
                  "numpy's allocator (failures, memory contents)", 'restarts (pickle, JSON, deep copies)'],
}
ASSUMPTIONS = ['piecewise constant and linear functions with at most eight contiguous or separate pieces', 'bounds and coefficients from small dyadic grids',
               'bounds of results that no operand has (crossings) are not evaluated exactly there']

INC, EXC = 1, 2
INF = math.inf
GRID = [-8., -4., -2., -1., -.5, 0., .5, 1., 2., 3., 6.]
COEF = [-2., -1., -.5, 0., 0., .25, .5, 1., 3.]

NUM = ['add_num', 'mul_num', 'div_num', 'add_fn', 'iadd', 'imul']
BINARY = ['add', 'sub', 'mul', 'mul', 'min', 'max', 'convolve']
UNARY = ['copy', 'simplify', 'xshift', 'xmirror', 'stretch', 'rectify', 'drop_undef', 'abs', 'differentiate', 'crop', 'crop', 'split', 'overwrite', 'overwrite',
         'overwrite_many', 'round', 'neg']
JUDGE = ['eval', 'eval', 'integrate', 'domain', 'boundaries', 'equal', 'maximize', 'similar', 'lookup']
RESTART = ['pickle', 'json', 'deepcopy', 'from_dict', 'from_points']
EDIT = ['edit_function', 'edit_function', 'drop_last', 'set']


# plans --------------------------------------------------------------------------------------------------------------

def gen_function(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    pts = sorted(rng.sample(GRID, n + 1))
    p = rng.random()
    if p < .35:
        pts[0], pts[-1] = -INF, INF
    elif p < .45:
        pts[-1] = INF
    const = rng.random() < .4
    out = []
    for i, (a, b) in enumerate(zip(pts, pts[1:])):
        m = 0. if const or rng.random() < .3 or abs(a) == INF or abs(b) == INF else rng.choice(COEF)
        out.append([a, b, EXC if a == -INF else INC, EXC, m, rng.choice(COEF)])
    if len(out) > 2 and rng.random() < .15 and p >= .45:
        del out[rng.randrange(1, len(out) - 1)]
    if p < .12:        # a density: nothing outside
        for s in out:
            s[4] = 0.
            s[5] = 0. if INF in map(abs, s[:2]) else abs(s[5])
    return out


def gen_interval(rng):
    a, b = sorted(rng.sample(GRID, 2))
    p = rng.random()
    if p < .1:
        return [-INF, b, EXC, EXC]
    if p < .2:
        return [a, INF, INC, EXC]
    if p < .25:
        return [-INF, INF, EXC, EXC]
    return [a, b, INC, EXC]


def gen_op(rng):
    p = rng.random()
    k = rng.choice(NUM if p < .12 else BINARY if p < .34 else UNARY if p < .6 else JUDGE if p < .74 else RESTART if p < .82 else EDIT if p < .92 else ['iter', 'next', 'next'])
    op = {'k': k, 'a': rng.randrange(1000), 'b': rng.randrange(1000), 'v': rng.choice(COEF), 'w': rng.choice([-2., -.5, .5, 1., 4.]),
          'i': gen_interval(rng), 'm': rng.choice(COEF), 'p': rng.random()}
    if k in ('overwrite_many', 'set', 'from_dict'):
        op['f'] = gen_function(rng)
    if k == 'from_points':
        op['points'] = [[x, rng.choice(COEF)] for x in sorted(rng.sample(GRID, rng.randint(2, 5)))]
        op['fail'] = rng.choice([None, None, 0, 1, 2])
    if k == 'eval':
        op.update(mode=rng.choice([0, 1, 2, 4]), fail=rng.choice([-1, -1, 0, 1, 2]))
    if rng.random() < .35:
        op['poke'] = rng.randrange(1000)
    return op


def gen(rng, idx):
    n = rng.choice([1, 1, 2, 3])
    plan = {'init': [gen_function(rng) for _ in range(rng.randint(2, 5))],
            'steps': [[rng.randrange(n), gen_op(rng)] for _ in range(rng.randint(5, 30))],
            'scale': rng.choice([1., 1., 1., 1 / 64, 1 / 8, 32.]), 'seed': rng.getrandbits(32)}
    c = plan['scale']
    for seg in [s for f in plan['init'] + [op['f'] for _, op in plan['steps'] if 'f' in op] for s in f] + [op['i'] for _, op in plan['steps']]:
        seg[:2] = [x * c for x in seg[:2]]
    for _, op in plan['steps']:
        op['d'] = op['w'] * c
        for q in op.get('points', []):
            q[0] *= c
    return plan


# the reference ------------------------------------------------------------------------------------------------------

def at(rep, x):
    """value of the function at x, None where it has none"""
    for lo, up, l, r, m, c in rep:
        if (lo < x or lo == x and l == INC) and (x < up or x == up and r == INC):
            return None if m is None else m * x + c if m else c
    return None


def defined(rep):
    return [s for s in rep if s[4] is not None]


def bounds(*lists):
    out = sorted({b for rep in lists for s in rep for b in s[:2] if abs(b) != INF})
    near = []
    for b in out:
        if not near or b - near[-1] > 1e-7:
            near.append(b)
    return near


def dyadic(x):
    return float(x * 4096).is_integer()


def points(bs, exact=True):
    """places at which functions with pieces between these bounds are compared"""
    if not bs:
        return [0., 1., -3.]
    out = [bs[0] - 1, bs[0] - 3, bs[-1] + 1, bs[-1] + 2.5]
    for a, b in zip(bs, bs[1:]):
        if b - a > 1e-5:
            out += [(a + b) / 2, a + (b - a) / 8]
    if exact:
        out += [b for b in bs if dyadic(b)]
    return sorted(out)


def area(rep, lo, up):
    out = 0.
    for a, b, _, _, m, c in rep:
        if m is None:
            return None
        a, b = max(a, lo), min(b, up)
        if a >= b:
            continue
        if abs(a) == INF or abs(b) == INF:
            if m or c:
                return None
            continue
        out += m * (b * b - a * a) / 2 + c * (b - a)
    return out


# runs ---------------------------------------------------------------------------------------------------------------

class Bad(Exception):
    pass


class Planned(Exception):
    pass


def run(plan, env, stage, carry):
    import numpy as np
    from jpt.base import intervals as iv
    from jpt.base import functions as fn
    CS, PF, LF, CF = iv.ContinuousSet, fn.PiecewiseFunction, fn.LinearFunction, fn.ConstantFunction
    env.ms.ms_install()
    consts = {'R': (iv.R, (-INF, INF, EXC, EXC)), 'EMPTY': (iv.EMPTY, (0., 0., EXC, EXC))}
    pool, iters = [], {}

    def piece(s):
        return CF(s[5]) if s[4] == 0 else LF(s[4], s[5])

    def make(segs):
        f = PF()
        for s in segs:
            f.append(CS(*s[:4]), piece(s))
        return f

    def reps(f):
        if type(f) is not PF:
            raise Bad('no function but %s' % type(f).__name__)
        if len(f.intervals) != len(f.functions):
            raise Bad('%d intervals but %d functions' % (len(f.intervals), len(f.functions)))
        out = []
        for i, g in zip(f.intervals, f.functions):
            if isinstance(g, fn.Undefined):
                m = c = None
            elif isinstance(g, (CF, LF)):
                m, c = float(g.m), float(g.c)
            else:
                m = c = type(g).__name__
            out.append((float(i.lower), float(i.upper), int(i.left), int(i.right), m, c))
        return out

    def show(rep):
        return ' '.join('%s%.4g,%.4g%s:%s' % ('[' if l == 1 else '(', a, b, ']' if r == 1 else ')', 'undef' if m is None else '%gx%+g' % (m, c) if isinstance(m, float) else m)
                        for a, b, l, r, m, c in rep) or 'nothing'

    def add(f):
        if len(pool) >= 8:
            pool.pop(0)
        pool.append([f, reps(f)])

    def check(what):
        for name, (o, want) in consts.items():
            if (o.lower, o.upper, o.left, o.right) != want:
                raise Bad('%s changed the constant %s' % (what, name))
        for f, want in pool:
            now = reps(f)
            if now != want:
                raise Bad('%s changed another function from %s into %s' % (what, show(want), show(now)))

    def near(a, b):
        return a is None and b is None or a is not None and b is not None and abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))

    def judge(res, ref, what, ops, exact=True):
        rep = reps(res)
        ordered(rep, what)
        for x in points(bounds(rep, *ops), exact):
            want = ref(x)
            got = at(rep, x)
            if not near(got, want):
                raise Bad('%s is %s at %s instead of %s; the result is %s' % (what, got, x, want, show(rep)))
        for lo, up, l, r, m, c in rep:       # a value at the border cases of infinity
            if lo > up:
                raise Bad('%s has the piece %s' % (what, show([(lo, up, l, r, m, c)])))

    def ordered(rep, what):
        for s, t in zip(rep, rep[1:]):
            if s[1] > t[0] + 1e-9 * (1 + abs(t[0])):
                raise Bad('%s has pieces out of order: %s' % (what, show(rep)))

    def total(rep):
        return all(m is not None for *_, m, _ in rep)

    for segs in plan['init']:
        add(make(segs))
    between = judged = 0
    kinds = []

    def poke(f, r):
        if not f.intervals:
            f.append(CS(0, 1, INC, EXC), CF(5.))
            return
        j = r % len(f.intervals)
        if r & 64:
            f.intervals[j].upper += 3
            f.intervals[j].left = EXC
        elif isinstance(f.functions[j], CF):
            f.functions[j].value = 77.
        elif isinstance(f.functions[j], LF):
            f.functions[j].c = 77.
        f.intervals[-1].upper += 1

    def simple(rep):
        return all(isinstance(s[4], float) for s in rep)

    def step(client, op):
        nonlocal between
        k = op['k']
        a, b = pool[op['a'] % len(pool)], pool[op['b'] % len(pool)]
        if k == 'convolve':
            dens = [e for e in pool if e[1] and (e[1][0][0], e[1][-1][1]) == (-INF, INF) and not any(s[4] or s[5] and INF in map(abs, s[:2]) for s in e[1])]
            if not dens:
                return None
            a, b = dens[op['a'] % len(dens)], dens[op['b'] % len(dens)]
        f, g, F, G = a[0], b[0], a[1], b[1]
        what = '%s of %s' % (k, show(F))
        v, w = op['v'], op['w']
        res = None
        if k in NUM:
            if not simple(F):
                return None
            if k == 'add_num':
                judge(res := (f + v), lambda x: none(at(F, x), lambda y: y + v), what + ' and %s' % v, [F])
            elif k == 'mul_num':
                judge(res := (f * w), lambda x: none(at(F, x), lambda y: y * w), what + ' and %s' % w, [F])
            elif k == 'div_num':
                judge(res := (f / w), lambda x: none(at(F, x), lambda y: y / w), what + ' and %s' % w, [F])
            elif k == 'add_fn':
                h = LF(op['m'] or 1., v)
                judge(res := (f + h), lambda x: none(at(F, x), lambda y: y + (op['m'] or 1.) * x + v), what + ' and %s' % h, [F])
            else:
                h = f
                if k == 'iadd':
                    f += v
                    ref = lambda x: none(at(F, x), lambda y: y + v)
                else:
                    f *= w
                    ref = lambda x: none(at(F, x), lambda y: y * w)
                if f is not h:
                    raise Bad('%s made another object' % k)
                judge(f, ref, what, [F])
                a[1] = reps(f)
                between += 1
                return None
        elif k in BINARY:
            if not simple(F) or not simple(G):
                return None
            what += ' and %s' % show(G)
            if k == 'mul' and any(s[4] for s in F) and any(s[4] for s in G):
                return None
            if k == 'convolve':
                if not F or not G or any(s[4] for s in F + G) or any((h[0][0], h[-1][1]) != (-INF, INF) for h in (F, G)) or len(runs(F)) != 1 or len(runs(G)) != 1 or any(INF in map(abs, s[:2]) and s[5] for s in F + G):
                    return None
                fin = [[s for s in h if INF not in map(abs, s[:2])] for h in (F, G)]
                if not all(fin) or f.is_impulse() or g.is_impulse():
                    return None
                res = f.convolution(g)
                env.count('convolutions')
                rep = reps(res)
                lo, up = fin[0][0][0] + fin[1][0][0], fin[0][-1][1] + fin[1][-1][1]
                for j in range(1, 16):
                    z = lo + (up - lo) * j / 16
                    want = sum(s[5] * t[5] * max(0., min(s[1], z - t[0]) - max(s[0], z - t[1])) for s in fin[0] for t in fin[1])
                    if not near(at(rep, z), want):
                        raise Bad('%s is %s at %s instead of %s; the result is %s' % (what, at(rep, z), z, want, show(rep)))
                return res
            if k in ('min', 'max'):
                lo, up = max(F[0][0], G[0][0]) if F and G else 0, min(F[-1][1], G[-1][1]) if F and G else 0
                if lo >= up or len(runs(F)) > 1 or len(runs(G)) > 1:
                    return None
                o = min if k == 'min' else max
                res = getattr(PF, k)(f, g)
            elif not F or not G:
                return None
            elif k == 'add':
                o, res = (lambda p, q: p + q), f + g
            elif k == 'sub':
                o, res = (lambda p, q: p - q), f - g
            else:
                o, res = (lambda p, q: p * q), f * g
            both = lambda x: None if at(F, x) is None or at(G, x) is None else o(at(F, x), at(G, x))
            judge(res, both, what, [F, G], exact=True)
        elif k in UNARY:
            if not simple(F) and k not in ('copy', 'drop_undef', 'simplify'):
                return None
            if k in ('copy', 'simplify', 'drop_undef'):
                judge(res := getattr(f, k)(), lambda x: at(F, x), what, [F])
                if k == 'copy' and reps(res) != F:
                    raise Bad('%s is %s' % (what, show(reps(res))))
            elif k == 'xshift':
                d = op['d']
                judge(res := f.xshift(d), lambda x: at(F, x + d), what + ' by %s' % d, [F, [[q - d for q in s[:2]] for s in F]],
                      exact=all(dyadic(x) for x in bounds(F)))
            elif k == 'xmirror':
                judge(res := f.xmirror(), lambda x: at(F, -x), what, [[[-q for q in s[:2]] for s in F]],
                      exact=all(s[2:4] == (INC, EXC) or abs(s[0]) == INF for s in F))
            elif k == 'stretch':
                judge(res := f.stretch(w), lambda x: none(at(F, x), lambda y: y * w), what + ' by %s' % w, [F])
            elif k == 'neg':
                judge(res := f * -1, lambda x: none(at(F, x), lambda y: -y), what, [F])
            elif k == 'rectify':
                if any(s[4] and INF in map(abs, s[:2]) for s in F):
                    return None
                mean = [(lo, up, l, r, 0., m * (lo + up) / 2 + c if m else c) for lo, up, l, r, m, c in F]
                judge(res := f.rectify(), lambda x: at(mean, x), what, [F])
            elif k == 'abs':
                if len(runs(F)) != 1:
                    return None
                judge(res := PF.abs(f), lambda x: none(at(F, x), abs), what, [F])
            elif k == 'differentiate':
                d = [(lo, up, l, r, 0., m) for lo, up, l, r, m, c in F]
                res = f.differentiate()
                if any(s[4] for s in reps(res)) or not simple(reps(res)):
                    raise Bad('%s is %s' % (what, show(reps(res))))
                judge(res, lambda x: at(d, x), what, [F])
            elif k == 'crop':
                i = op['i']
                judge(res := f.crop(CS(*i)), lambda x: at(F, x) if at([tuple(i) + (0., 0.)], x) is not None else None, what + ' to %s' % i, [F, [i]])
            elif k == 'split':
                xs = [x for x in [x * plan['scale'] for x in GRID + [.25]] if at(F, x) is not None]
                if not xs:
                    return None
                x0 = xs[int(op['p'] * len(xs))]
                left, right = f.split(x0)
                what += ' at %s' % x0
                judge(left, lambda x: at(F, x) if x < x0 else None, 'left ' + what, [F, [[x0, x0]]])
                judge(right, lambda x: at(F, x) if x >= x0 else None, 'right ' + what, [F, [[x0, x0]]])
                if op.get('poke') is not None:
                    r = reps(right)
                    poke(left, op['poke'])
                    if reps(right) != r:
                        raise Bad('the parts of %s share something' % what)
                    return right
                res = left
            elif k == 'overwrite':
                i, h = op['i'], [tuple(op['i']) + (0. if INF in map(abs, op['i'][:2]) else op['m'], v)]
                H = piece(h[0])
                res = f.overwrite_at(CS(*i), H)
                judge(res, lambda x: at(h, x) if at(h, x) is not None else at(F, x), what + ' with %s' % show(h), [F, h])
            elif k == 'overwrite_many':
                h = [tuple(s) for s in op['f']]
                d = {CS(*s[:4]): (v if j == 0 else piece(s)) for j, s in enumerate(h)}
                h[0] = h[0][:4] + (0., v)
                res = f.overwrite(d)
                judge(res, lambda x: at(h, x) if at(h, x) is not None else at(F, x), what + ' with %s' % show(h), [F, h])
                if [(i.lower, i.upper, i.left, i.right) for i in d] != [s[:4] for s in h]:
                    raise Bad('%s changed its argument' % what)
            elif k == 'round':
                res = f.round(9, include_intervals=op['p'] < .5)
                judge(res, lambda x: at(F, x), what, [F], exact=False)
        elif k in JUDGE:
            if not simple(F) or not F:
                return None
            if k == 'eval':
                xs = [x for x in points(bounds(F)) if at(F, x) is not None]
                if not xs:
                    return None
                for x in xs:
                    if not near(f.eval(x), at(F, x)) or not near(f(x), at(F, x)) or not near(f.at(x).eval(x), at(F, x)):
                        raise Bad('%s at %s is %s' % (what, x, f(x)))
                arr = np.array(xs)
                env.ms.ms_config(op['mode'], op['a'], 0xAB, op['fail'], 0)
                try:
                    got = list(f.multi_eval(arr))
                except MemoryError:
                    if op['fail'] < 0:
                        raise
                    env.count('fault:allocation')
                    between += 1
                    return None
                finally:
                    env.ms.ms_config(0, 0, 0, -1, 0)
                if len(got) != len(xs) or not all(near(y, at(F, x)) for x, y in zip(xs, got)):
                    raise Bad('%s at %s are %s' % (what, xs, got))
                if list(arr) != xs:
                    raise Bad('%s changed its argument' % what)
            elif k == 'integrate':
                lo, up = op['i'][:2]
                want = area(F, lo, up)
                if want is not None and not near(f.integrate(CS(*op['i'])), want):
                    raise Bad('integral of %s over %s is %s instead of %s' % (show(F), op['i'], f.integrate(CS(*op['i'])), want))
                want = area(F, -INF, INF)
                if want is not None and not near(f.integrate(), want):
                    raise Bad('integral of %s is %s instead of %s' % (show(F), f.integrate(), want))
            elif k == 'domain':
                d = f.domain()
                for x in points(bounds(F)):
                    if bool(d.contains_value(x)) != (at(F, x) is not None):
                        raise Bad('domain of %s is %s' % (show(F), d))
                parts = d.intervals if isinstance(d, iv.RealSet) else [d]
                if len(parts) != len(runs(F)):
                    raise Bad('domain of %s is %s' % (show(F), d))
                parts[-1].upper += 2
            elif k == 'boundaries':
                got = f.boundaries()
                want = bounds(F)
                if not all(any(abs(x - y) < 1e-6 for y in want) for x in got) or list(got) != sorted(got):
                    raise Bad('boundaries of %s are %s' % (show(F), list(got)))
                for s, t in zip(F, F[1:]):
                    if s[1] == t[0] and min(abs(s[1] - x) for x in got) > 1e-9:
                        raise Bad('boundaries of %s are %s' % (show(F), list(got)))
                got[...] = 0
            elif k == 'equal':
                if not simple(G) or not G:
                    return None
                for h in (f.copy(), f.simplify()):
                    if not f == f.copy() or f != f.copy():
                        raise Bad('%s is not equal to its copy' % show(F))
                if len(F) == len(G) and (f == g) != (F == G) and all(s[2:4] == t[2:4] for s, t in zip(F, G)):
                    raise Bad('%s == %s is %s' % (show(F), show(G), f == g))
            elif k == 'maximize':
                if any(s[4] and INF in map(abs, s[:2]) for s in F):
                    return None
                arg, best = f.maximize()
                want = max(max(m * x + c if m else c for x in s2) for s in F for m, c, s2 in [(s[4], s[5], s[:2])])
                if not near(float(best), want):
                    raise Bad('maximum of %s is %s instead of %s' % (show(F), best, want))
                for x in points(bounds(F), False):
                    y = at(F, x)
                    if y is not None and y == want and not arg.contains_value(x) or arg.contains_value(x) and not near(y, want):
                        raise Bad('maximum of %s is at %s, and %s has %s' % (show(F), arg, x, y))
                if isinstance(arg, CS):
                    arg.upper += 1
            elif k == 'similar':
                if len(runs(F)) != 1 or area(F, -INF, INF) is None or any(s[4] * x + s[5] < 0 for s in F for x in s[:2] if s[4] and abs(x) != INF) or any(not s[4] and s[5] < 0 for s in F):
                    return None
                if area(F, -INF, INF) > 1e-6 and not near(PF.jaccard_similarity(f, f.copy()), 1.):
                    raise Bad('%s has similarity %s to itself' % (show(F), PF.jaccard_similarity(f, f.copy())))
            elif k == 'lookup':
                for x in points(bounds(F)):
                    j = f.idx_at(x)
                    i = f.interval_at(x)
                    if (j == -1) != (at(F, x) is None) or bool(i.isempty()) != (at(F, x) is None):
                        raise Bad('%s has piece %d, %s at %s' % (show(F), j, i, x))
                    if j != -1 and (i is not f.intervals[j] and i != f.intervals[j] or f.at(x) is not f.functions[j]):
                        raise Bad('%s has pieces %s and %s at %s' % (show(F), i, f.intervals[j], x))
                    if j == -1:
                        i.lower, i.upper = 0., 0.
                        i.left = i.right = INC       # the caller may do with it what it likes
                        check('an edit of the empty interval of a lookup')
        elif k in RESTART:
            if k == 'pickle':
                i = pool.index(a)
                data = pickle.loads(pickle.dumps([o for o, _ in pool]))
                for j, (o, (_, r)) in enumerate(zip(data, pool)):
                    if reps(o) != r:
                        raise Bad('%s came back from a pickle as %s' % (show(r), show(reps(o))))
                    pool[j][0] = o
            elif k in ('json', 'deepcopy'):
                if k == 'json' and not simple(F):
                    return None
                res = PF.from_json(json.loads(json.dumps(f.to_json()))) if k == 'json' else copy.deepcopy(f)
                if reps(res) != F:
                    raise Bad('%s came back from %s as %s' % (show(F), k, show(reps(res))))
            elif k == 'from_dict':
                h = [tuple(s) for s in op['f']]
                order = sorted(h, key=lambda s: s[0] * w)
                d = {CS(*s[:4]): piece(s) for s in order}
                res = PF.from_dict(d)
                if reps(res) != h:
                    raise Bad('%s put together is %s' % (show(h), show(reps(res))))
                return res if op.get('poke') is None else None
            else:
                pts = op['points']

                def source():
                    for j, q in enumerate(pts):
                        if j == op['fail']:
                            raise Planned()
                        if j == 1 and F:
                            f.simplify()
                        yield tuple(q)
                try:
                    res = PF.from_points(source())
                    if op['fail'] is not None and op['fail'] < len(pts):
                        raise Bad('an error of the argument was lost')
                except Planned:
                    env.count('fault:failing argument')
                    between += 1
                    return None
                for (x, y), (x2, y2) in zip(pts, pts[1:]):
                    for t in (0., .25, .75):
                        if not near(at(reps(res), x + t * (x2 - x)), y + t * (y2 - y)):
                            raise Bad('the line through %s is %s' % (pts, show(reps(res))))
            between += 1
            env.count('fault:restart')
        elif k in EDIT:
            if not F:
                return None
            between += 1
            env.count('fault:edit')
            j = op['b'] % len(F)
            if k == 'edit_function':
                if F[j][4] is None:
                    return None
                if isinstance(f.functions[j], CF):
                    f.functions[j].value = v
                elif isinstance(f.functions[j], LF):
                    f.functions[j].c = v
                a[1] = F[:j] + [F[j][:5] + (v,)] + F[j + 1:]
            elif k == 'drop_last':
                if len(F) > 1:
                    f.intervals.pop()
                    f.functions.pop()
                    a[1] = F[:-1]
            else:
                h = make(op['f'])
                f.set(h)
                a[1] = [tuple(s) for s in op['f']]
                if reps(f) != a[1]:
                    raise Bad('set to %s it is %s' % (show(a[1]), show(reps(f))))
                poke(h, op['a'])
            return None
        elif k == 'iter':
            if F:
                iters[client] = [iter(list(f.copy().iter())), F, 0]
            return None
        elif k == 'next':
            if client in iters:
                it = iters[client]
                nxt = next(it[0], None)
                if nxt is None:
                    del iters[client]
                else:
                    i, h = nxt
                    m, c = (None, None) if isinstance(h, fn.Undefined) else (float(h.m), float(h.c)) if isinstance(h, (CF, LF)) else (type(h).__name__,) * 2
                    if (i.lower, i.upper, i.left, i.right, m, c) != it[1][it[2]]:
                        raise Bad('a piece of a copy changed from %s' % show([it[1][it[2]]]))
                    it[2] += 1
                    between += 1
                    env.count('suspension')
            return None
        if res is not None and op.get('poke') is not None:
            check(k)
            poke(res, op['poke'])
            env.count('fault:edit of a result')
            between += 1
            check('an edit of the result of %s' % k)
            return None
        return res

    out = {}
    for n, (client, op) in enumerate(plan['steps']):
        if not pool:
            break
        env.count('op:' + op['k'])
        if op['k'] not in kinds:
            kinds.append(op['k'])
        try:
            res = step(client, op)
            judged += 1
            check(op['k'])
            env.event(n, op['k'], None if res is None else reps(res))
        except Bad as e:
            out['violation'] = {'kind': 'function', 'site': op['k'], 'msg': 'step %d (%s): %s' % (n, op['k'], e)}
            env.event('bad', str(e))
            break
        except Exception as e:
            import traceback
            env.event('error', type(e).__name__)
            if traceback.extract_tb(e.__traceback__)[-1].filename.startswith(os_dir()):
                raise
            out['violation'] = {'kind': 'error', 'site': op['k'], 'msg': 'step %d (%s) on %s: %s: %s' % (
                n, op['k'], [show(pool[op[q] % len(pool)][1]) for q in 'ab'], type(e).__name__, e)}
            break
        if res is not None and len(reps(res)) <= 8:
            add(res)
    env.count('steps', judged)
    out['sample'] = {'init': plan['init'], 'steps': [[c, o['k']] for c, o in plan['steps']]}
    if judged and between:
        out['sets'] = {'distinct': [rng_.derive(repr(kinds), between)]}
    return out


def os_dir():
    import os
    return os.path.dirname(os.path.abspath(__file__))


def none(y, f):
    return None if y is None else f(y)


def runs(rep):
    """stretches without a gap"""
    out = []
    for s in rep:
        if out and out[-1][1] == s[0] and (out[-1][3] == INC) != (s[2] == INC):
            out[-1] = out[-1][:1] + s[1:2] + out[-1][2:3] + s[3:4]
        else:
            out.append(tuple(s[:4]))
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 1)
    yield from shrinkers.drop_items(plan, ['init'], 1)
    for i in range(len(plan['init'])):
        yield from shrinkers.drop_items(plan, ['init', i], 1)
    for i, (_, op) in enumerate(plan['steps']):
        if op.get('poke') is not None:
            yield shrinkers._with(plan, ['steps', i, 1], {k: v for k, v in op.items() if k != 'poke'})
