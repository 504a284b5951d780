"""C08: samples are possible, repeatable and distributed as the model says, for every state of the generators."""
import io
import json
import math

import rng as rng_
import shrinkers
import simsched
import worlds

RUNS = {'quick': 900, 'thorough': 60000}
STAGES = 2
RULE = ('one evaluation = one model (learned or derived, often conditioned on evidence) sampled with generators in crafted '
        'states (draws of 0, of the largest value below one, of exactly the cumulative probabilities of the model, and '
        'random ones), row by row, per leaf and per distribution, from one or several threads, and again in another '
        'process; distinct by (model, crafted states, operation); non-trivial = at least one crafted draw was consumed')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy and its Mersenne Twister', 'random'],
    'simulated': ['state of both global random generators', 'thread schedules', 'hash seed and layout of the processes'],
}
ASSUMPTIONS = ['the frequency test assumes that the Mersenne Twister behaves like independent draws; bound 1e-12 per event']
U = 1 << 53
EDGES = [0, 1, U - 1, U - 2, U >> 1, (U >> 1) - 1, U >> 2, 3 * (U >> 2)]


def gen(rng, idx):
    w = worlds.gen_world(rng)
    ev = worlds.gen_evidence(rng, w, form='dict') if rng.random() < .6 else None
    what = rng.choice(['rows', 'rows', 'rows', 'leaf', 'dist', 'threads', 'freq', 'freq', 'sets'])
    return {'world': w, 'ev': ev, 'what': what, 'n': rng.choice([1, 1, 2, 7, 40]), 'reps': rng.randint(2, 8),
            'seed': rng.getrandbits(32), 'p': rng.choice([.01, .1, .5]),
            # factors for the leaves; some become impossible
            'rew': [rng.choice([0., 0., 1., 1., .25, 1e-9, 7.]) for _ in range(rng.randint(1, 5))] if rng.random() < .35 else None}


# -- crafted generator states ------------------------------------------------------------

def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def key_for(draws):
    """624 words of state that make the generator return the doubles k / 2^53 for k in draws (312 of them)"""
    key = []
    for k in draws[:312]:
        key += [untemper((k >> 26) << 5), untemper((k & ((1 << 26) - 1)) << 6)]
    return key


def draws_for(r, special):
    """312 draws, some of them crafted"""
    style = r.choice(['zero', 'top', 'edges', 'special', 'mixed', 'mixed', 'random'])
    res = []
    for _ in range(312):
        if style == 'zero':
            k = 0
        elif style == 'top':
            k = U - 1
        elif style == 'edges':
            k = r.choice(EDGES)
        elif style == 'random':
            k = r.getrandbits(53)
        else:
            x = r.random()
            if x < .5 and special:
                k = int(r.choice(special) * U) + r.choice([-1, 0, 0, 1])
            elif x < .7 and style == 'mixed':
                k = r.choice(EDGES)
            else:
                k = r.getrandbits(53)
        res.append(min(U - 1, max(0, k)))
    return style, res


def set_state(d1, d2):
    import numpy as np
    import random
    np.random.set_state(('MT19937', np.array(key_for(d1), dtype=np.uint32), 0, 0, 0.))
    random.setstate((3, tuple(key_for(d2)) + (0,), None))


def cumulatives(m):
    import itertools
    res = set(itertools.accumulate(float(l.prior) for l in m.leaves.values()))
    for l in list(m.leaves.values())[:6]:
        for v, d in l.distributions.items():
            if not v.numeric:
                res.update(itertools.accumulate(float(x) for x in d.probabilities))
    return sorted(x for x in res if 0 <= x <= 1)


# -- what is possible ----------------------------------------------------------------------

def inside(spec, v, span, bound=None):
    """does the label `v` satisfy the evidence?"""
    eps = 1e-9 * max(1., span, abs(v) if isinstance(v, float) else 0)
    k = spec[0]
    if k == 'n':                     # a number, unless the settings of the variable widen it
        lo, hi = (spec[1], spec[1]) if bound is None else (bound.lower, bound.upper)
        return lo - eps <= v <= hi + eps
    if k == 'iv':
        return spec[1] - eps <= v <= spec[2] + eps
    if k == 'list':
        return spec[1] - eps <= v <= spec[2] + eps
    if k == 'rs':
        return any(a - eps <= v <= b + eps for a, b in spec[1])
    if k == 'one':
        return v == spec[1]
    if k == 'rng':
        return spec[1] <= v <= spec[2]
    if k == 'none':
        return True
    return v in spec[1]


class Oracle:

    def __init__(self, m, w, ev, bound):
        self.bound = bound
        from jpt.base.intervals import ContinuousSet
        self.CS = ContinuousSet
        self.m, self.w, self.ev = m, w, ev
        self.vars = list(m.variables)
        self.cols = {c['name']: i for i, c in enumerate(w['cols'])}
        self.span = {}
        for v in self.vars:
            if v.numeric:
                xs = [r[self.cols[v.name]] for r in w['rows']]
                self.span[v] = (max(xs) - min(xs)) or 1.
        self.cache = {}

    def mass(self, d, v, x):
        """probability of (a small neighbourhood of) the label x"""
        if v.numeric:
            e = 1e-4 * self.span[v]
            return float(d.p(self.CS(x - e, x + e)))
        return float(d.p({x}))

    def value(self, v, x):
        """complaint about a single value, or None"""
        if v.numeric:
            if not isinstance(x, float) or not math.isfinite(x):
                return 'is not a number'
        elif x not in worlds.domain(self.w, self.cols[v.name]):
            return 'is no label of the domain'
        if self.ev and v.name in self.ev['map'] and not inside(
                self.ev['map'][v.name], x, self.span.get(v, 1.), self.bound.get(v.name)):
            return 'contradicts the evidence %s' % (self.ev['map'][v.name],)
        return None

    def row(self, row, leaf=None):
        if len(row) != len(self.vars):
            return 'has %d values for %d variables' % (len(row), len(self.vars))
        for v, x in zip(self.vars, row):
            c = self.value(v, x)
            if c:
                return '%s = %r %s' % (v.name, x, c)
        for l in ([leaf] if leaf is not None else self.m.leaves.values()):
            if leaf is None and l.prior <= 0:
                continue
            p = 1.
            for v, x in zip(self.vars, row):
                p = p and self.mass(l.distributions[v], v, x)
            if p > 0:
                return None
        return 'has probability zero'


def plain(x):
    import numpy as np
    if isinstance(x, np.generic):
        return x.item()
    return x


def rows_of(a):
    return [[plain(x) for x in r] for r in a]


# -- the run -------------------------------------------------------------------------------

def run(plan, env, stage, carry):
    import numpy as np
    from jpt.trees import JPT
    w = plan['world']
    r = rng_.stream(plan['seed'], 'c08')
    if stage == 1:
        blob, results = carry
        m = JPT.from_json(json.loads(blob))
        for d1, d2, n, rows in results:
            set_state(d1, d2)
            got = rows_of(m.sample(n))
            diff = env.canon_diff(env.canon(rows), env.canon(got), 1e-12)
            env.count('probe:same rows in another process')
            if diff:
                return {'violation': {'kind': 'process', 'site': None,
                                      'msg': 'rows drawn here vs in another process from the same generator state: ' + diff}}
        return {}
    m = env.build(w)
    ev, bound = None, {}
    if plan['ev'] is not None:
        try:
            for v, x in m.bind(worlds.evidence(m, plan['ev'])).items():
                if v.numeric and hasattr(x, 'lower'):
                    bound[v.name] = x
            c = m.conditional_jpt(worlds.evidence(m, plan['ev']), fail_on_unsatisfiability=False)
        except Exception as e:
            raise env.Skip('conditioning: %s' % type(e).__name__)
        if c is not None:
            m, ev = c, plan['ev']
            # evidence of earlier steps is subsumed by the distributions of the model itself
    if plan.get('rew'):
        k = plan['rew']
        f = {idx: k[i % len(k)] for i, idx in enumerate(m.leaves)}
        if any(f.values()):
            m = m.copy()
            m.multiply_by_leaf_prior(f)
            env.count('op:reweighted')
            env.count('op:impossible leaves', sum(not x for x in f.values()))
    o = Oracle(m, w, ev, bound)
    before = env.canon(m)
    what = plan['what']
    out = {'sample': {'what': what, 'n': plan['n'], 'evidence': ev and ev['map'], 'leaves': len(m.leaves)}, 'sets': {'distinct': []}}
    special = cumulatives(m)

    def bad(kind, msg):
        out['violation'] = {'kind': kind, 'site': what, 'msg': msg}
        return out
    results = []
    if what == 'freq':
        return frequencies(plan, env, m, o, out, before, bad)
    if what == 'sets':
        return sets(plan, env, r, out, bad)
    for rep in range(plan['reps']):
        s1, d1 = draws_for(r, special)
        s2, d2 = draws_for(r, special)
        n = plan['n']
        env.count('op:' + what)
        env.count('fault:generator state %s' % s1)
        out['sets']['distinct'].append('%s/%s/%s/%d' % (what, s1, s2, rng_.derive(json.dumps(w, sort_keys=True)) % 10 ** 9))
        target, leaf = m, None
        if what in ('leaf', 'dist'):
            ids = sorted(m.leaves)
            leaf = m.leaves[r.choice(ids)]
            target = leaf
        try:
            if what == 'threads':
                got = threads(plan, env, m, n, d1, d2, r)
                if isinstance(got, str):
                    return bad('threads', got)
            elif what == 'dist':
                v = r.choice(o.vars)
                d = r.choice([leaf.distributions[v], m.priors[v]])
                set_state(d1, d2)
                got = [plain(x) for x in d.sample(n)]
                got += [plain(d.sample_one())]
                set_state(d1, d2)
                again = [plain(x) for x in d.sample(n)]
                again += [plain(d.sample_one())]
                if len(got) != n + 1:
                    return bad('count', 'asked for %d values of %s, got %d' % (n, v.name, len(got) - 1))
                if got != again:
                    return bad('repeat', '%s: same generator state, other values: %r != %r' % (v.name, got, again))
                for x in got:
                    c = o.value(v, x) if d is not m.priors[v] else None
                    if c is None and not o.mass(d, v, x) > 0:
                        c = 'has probability zero'
                    if c:
                        return bad('impossible', 'sampled %s = %r %s (generator draws %s/%s)' % (v.name, x, c, s1, s2))
                env.event(got)
                continue
            else:
                set_state(d1, d2)
                a = target.sample(n)
                got = rows_of(a)
                if np.shape(a) != (n, len(o.vars)):
                    return bad('count', 'asked for %d rows of %d variables, got %s' % (n, len(o.vars), np.shape(a)))
                set_state(d1, d2)
                again = rows_of(target.sample(n))
                if repr(again) != repr(got):
                    return bad('repeat', 'same generator state, other rows: %r != %r' % (got[:3], again[:3]))
                if what == 'rows' and len(results) < 2:
                    results.append([d1, d2, n, got])
        except Exception as e:
            return bad('error', 'sampling fails: %s: %s (generator draws %s/%s)' % (type(e).__name__, e, s1, s2))
        env.event(got)
        for row in got:
            c = o.row(row, leaf)
            if c:
                return bad('impossible', 'sampled row %r %s (generator draws %s/%s)' % (row, c, s1, s2))
    d = env.canon_diff(before, env.canon(m), 0)
    if d:
        return bad('state', 'model before vs after sampling: %s' % d)
    if results:
        out['carry'] = [json.dumps(m.to_json()), results]
    else:
        out['stop'] = True
    return out


def threads(plan, env, m, n, d1, d2, r):
    s = simsched.Scheduler(env.prefix, rng_.stream(plan['seed'], 'sched'), plan['p'], None, False, 3000000)
    got = [None, None]

    def body(i):
        with s.tracer(i):
            got[i] = rows_of(m.sample(n))
    for _ in got:
        s.spawn(body)
    set_state(d1, d2)
    s.run()
    env.count('steps', s.step)
    env.count('fault:preemption', len(s.taken))
    for i, e in s.errors:
        return 'client %d: %r' % (i, e)
    return got[0] + got[1]


def frequencies(plan, env, m, o, out, before, bad):
    """how often seeded samples fall into sets, against the probabilities of those sets"""
    import numpy as np
    import random
    r = rng_.stream(plan['seed'], 'freq')
    np.random.seed(r.getrandbits(32))
    random.seed(r.getrandbits(32))
    n = 3000
    env.count('op:freq')
    env.count('probe:rows', n)
    rows = rows_of(m.sample(n))
    out['stop'] = True
    env.event(rows[:3])
    out['sets']['distinct'].append('freq/%d' % (rng_.derive(json.dumps(plan['world'], sort_keys=True)) % 10 ** 9))

    def event(v):
        i = o.vars.index(v)
        col = [x[i] for x in rows]
        if v.numeric:
            a, b = sorted((r.choice(col), r.choice(col)))
            if r.random() < .3:
                b = a
                a = min(col) - 1
            e = 1e-9 * o.span[v]
            # a set a little larger and one a little smaller, so that rounding at the ends is no matter
            return (lambda x: a <= x <= b), o.CS(a - e, b + e), (o.CS(a + e, b - e) if b - e > a + e else None)
        vals = sorted(set(col), key=repr)
        s = set(r.sample(vals, r.randint(1, len(vals))))
        return (lambda x: x in s), s, s
    limit = math.log(2e12)

    def kl(p, q):
        t = 0.
        if p > 0:
            t += p * math.log(p / q) if q > 0 else math.inf
        if p < 1:
            t += (1 - p) * math.log((1 - p) / (1 - q)) if q < 1 else math.inf
        return t
    for _ in range(25):
        vs = r.sample(o.vars, min(len(o.vars), r.choice([1, 1, 2, 2, 3])))
        es = [event(v) for v in vs]
        idx = [o.vars.index(v) for v in vs]
        k = sum(all(e[0](row[i]) for e, i in zip(es, idx)) for row in rows) / n
        bounds = []
        for which in (1, 2):
            p = 0.
            for l in m.leaves.values():
                q = float(l.prior)
                for v, e in zip(vs, es):
                    q *= float(l.distributions[v].p(e[which])) if e[which] is not None else 0.
                p += q
            bounds.append(p)
        hi, lo = bounds[0] + 1e-9, bounds[1] - 1e-9
        near = k if lo <= k <= hi else hi if k > hi else lo
        env.count('probe:frequency')
        if n * kl(k, min(1., max(0., near))) > limit:
            return bad('frequency', '%s in %s: %.4f of %d rows, but the probability is %.4f..%.4f' % (
                [v.name for v in vs], [str(e[1]) for e in es], k, n, lo, hi))
    d = env.canon_diff(before, env.canon(m), 0)
    if d:
        return bad('state', 'model before vs after sampling: %s' % d)
    return out


def sets(plan, env, r, out, bad):
    """samples of intervals and unions of intervals lie in them"""
    import numpy as np
    from jpt.base.intervals import ContinuousSet, RealSet
    out['stop'] = True
    for rep in range(plan['reps'] * 3):
        ivs, x = [], r.choice([-5., 0., 1e6, -1e-3])
        for _ in range(r.randint(1, 4)):
            x += r.choice([.5, 1e-6, 3., 100.])
            k = r.random()
            if k < .25:
                ivs.append(ContinuousSet(x, x, 1, 1))
            else:
                y = x + r.choice([1., 1e-9, 2.5, 1e4])
                ivs.append(ContinuousSet(x, y, r.choice([1, 2]), r.choice([1, 2])))
                x = y
            x += 1.
        r.shuffle(ivs)
        s = RealSet(list(ivs)) if len(ivs) > 1 or r.random() < .3 else ivs[0]
        s1, d1 = draws_for(r, [.25, .5])
        env.count('op:sample a set')
        env.count('fault:generator state %s' % s1)
        out['sets']['distinct'].append('set/%s/%d/%s' % (s1, len(ivs), type(s).__name__))
        n = plan['n']
        set_state(d1, d1)
        try:
            got = [float(v) for v in s.sample(n)]
        except Exception as e:
            return bad('error', 'sampling %s fails: %s: %s' % (s, type(e).__name__, e))
        env.event(got)
        if len(got) != n:
            return bad('count', 'asked for %d values of %s, got %d' % (n, s, len(got)))
        for v in got:
            if not any((i.lower < v < i.upper) or (v == i.lower and i.left == 1) or (v == i.upper and i.right == 1) for i in ivs):
                return bad('impossible', 'sampled %r from %s (generator draws %s)' % (v, s, s1))
    return out


def shrink(plan):
    for k, v in (('n', 1), ('reps', 1)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    if plan.get('rew'):
        yield dict(plan, rew=None)
    if plan['ev']:
        yield dict(plan, ev=None)
        for k in plan['ev']['map']:
            yield shrinkers._with(plan, ['ev', 'map'], {a: b for a, b in plan['ev']['map'].items() if a != k})
    yield from shrinkers.world(plan)
