"""C09: k-MPE streams are ordered, complete and free of repetitions, whatever their consumers do."""
import math

import ref
import rng as rng_
import shrinkers
import simsched
import worlds

RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('one evaluation = one model with 1-4 enumerations under different evidence that are advanced, paused, mixed with other '
        'queries, abandoned, broken off by an injected exception or run to their end in a seeded order; distinct by (model, '
        'evidence, order of steps); non-trivial = at least two enumerations were open at once or at least two states were read')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy'],
    'simulated': ['order in which consumers advance', 'asynchronous exceptions', 'hash seed and layout of the processes'],
    'reference': ['sim/ref.py: product of the level sets of the distributions of each leaf, sorted'],
}
ASSUMPTIONS = ['enumerations with more than 2500 states are only compared up to the states that were read']
LIMIT = 2500


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([4, 8, 15, 25]), n_cols=rng.choice([1, 2, 2, 3, 3, 4]))
    n = rng.choice([1, 1, 2, 2, 3, 4])
    evs = [worlds.gen_evidence(rng, w) if rng.random() < .7 else None for _ in range(n)]
    cons = [{'ev': i, 'k': rng.choice([0, 0, 0, 1, 2, 5, 20]), 'fail': rng.random() < .6} for i in range(n)]
    steps = []
    for _ in range(rng.choice([2, 5, 12, 30])):
        c = rng.randrange(n)
        r = rng.random()
        if r < .75:
            steps.append(['next', c, rng.choice([1, 1, 1, 2, 3, 10])])
        elif r < .83:
            steps.append(['query', rng.choice(['mpe', 'cond', 'infer', 'show', 'kmpe']), rng.randrange(n)])
        elif r < .88:
            steps.append(['close', c])
        elif r < .92:
            steps.append(['reopen', c])
        elif r < .95:
            steps.append(['fault', c, rng.choice(['KeyboardInterrupt', 'MemoryError', 'RecursionError']), rng.random()])
        else:
            steps.append(['all', c])
    if rng.random() < .7:
        steps += [['all', c] for c in range(n)]
    return {'world': w, 'evs': evs, 'cons': cons, 'steps': steps, 'mpe': rng.random() < .5}


def state_of(sol):
    """a yielded state in plain form"""
    out = {}
    va = sol.value_assignment()
    for v, s in va.items():
        if v.numeric:
            out[v.name] = ref.merge([(a, b) for a, b, _, _ in ref.intervals(s)])
        else:
            out[v.name] = frozenset(int(i) for i in s) if isinstance(s, (set, frozenset)) else frozenset([int(s)])
    return out


def matches(state, want):
    if set(state) != set(want):
        return False
    for k, s in state.items():
        c = want[k][0]
        if c == 'dirac':
            if not (len(s) == 1 and near(s[0][0], want[k][2]) and near(s[0][1], want[k][2])):
                return False
        elif isinstance(c, frozenset):
            if c != s:
                return False
        else:
            if len(c) != len(s) or not all(near(x, y) and near(x_, y_) for (x, x_), (y, y_) in zip(c, s)):
                return False
    return True


def near(a, b):
    return a == b or abs(a - b) <= 1e-6 * max(1., abs(a), abs(b))


class Reference:
    """what a stream has to deliver"""

    def __init__(self, cond):
        self.impossible = cond is None
        self.items = None
        self.no_density = False
        if cond is None:
            self.items = []
        else:
            self.items = ref.explanations(cond, LIMIT)
            # a numeric distribution that consists of several single points (merged constant columns) has no density
            self.no_density = any(v.numeric and ref.Num(d).levels() == [] for l in cond.leaves.values()
                                  for v, d in l.distributions.items())
        self.sorted = None
        if self.items is not None:
            self.items.sort(key=lambda x: -x[2])
            self.index = {}
            for n, it in enumerate(self.items):
                self.index.setdefault(self.key(it[1]), []).append(n)

    @staticmethod
    def key(state):
        return repr(sorted((k, sorted(c[0] if isinstance(c, tuple) else c)) for k, c in state.items()
                           if isinstance(c[0] if isinstance(c, tuple) else c, frozenset)))

    def find(self, state, like, used):
        for n in self.index.get(self.key(state), ()):
            if n not in used and matches(state, self.items[n][1]) and ref.close(like, self.items[n][2], 1e-6):
                return n
        return None


class Stream:

    def __init__(self, c):
        self.c = c
        self.used = set()
        self.n = 0
        self.last = math.inf
        self.gen = None
        self.over = False


def run(plan, env, stage, carry):
    w = plan['world']
    m = env.build(w)
    refs = []

    def conditional(i):
        e = plan['evs'][i]
        return m.conditional_jpt(worlds.evidence(m, e), fail_on_unsatisfiability=False) if e is not None else m.copy()

    for i in range(len(plan['evs'])):
        try:
            refs.append(Reference(conditional(i)))
        except Exception as e:
            raise env.Skip('conditioning: %s' % type(e).__name__)
    streams = {}
    out = {'sets': {}}
    reads = 0
    most = 0

    def bad(kind, msg, site=None):
        out['violation'] = {'kind': kind, 'msg': msg, 'site': site}
        return out

    def open_(i):
        c = plan['cons'][i]
        s = Stream(c)
        e = plan['evs'][c['ev']]
        if e is None:
            s.gen = m.kmpe(k=c['k'], fail_on_unsatisfiability=c['fail'])
        else:
            s.gen = m.kmpe(worlds.evidence(m, e), c['fail'], c['k'])
        streams[i] = s
        env.count('op:open')
        return s

    def advance(i):
        """one step of consumer i -> None, or a violation"""
        nonlocal reads
        s = streams.get(i) or open_(i)
        r = refs[s.c['ev']]
        total = len(r.items) if r.items is not None else 20000
        n_vars = len(w['cols'])
        limit = 200000 + 2000 * (total + 50) * (n_vars + 1)
        try:
            with simsched.Tracer(env.prefix, False, None, limit):
                x = next(s.gen, None) if s.gen is not None else None
        except simsched.SimHang:
            return bad('hang', 'consumer %d: no further state within %d steps (there are %s)' % (i, limit, total))
        except Exception as e:
            if s.over:
                return None
            s.over = True
            if r.impossible and s.c['fail'] and type(e).__name__ in ('Unsatisfiability', 'ValueError'):
                return None
            return bad('failed', 'consumer %d: %s: %s' % (i, type(e).__name__, str(e)[:200]),
                       'no density' if r.no_density else type(e).__name__)
        reads += 1
        env.count('op:next')
        want = None if r.items is None else len(r.items) if not s.c['k'] else min(s.c['k'], len(r.items))
        if x is None:
            if s.over:
                return None
            s.over = True
            if r.impossible:
                return None if not s.c['fail'] else bad('impossible', 'consumer %d: evidence is impossible, but the enumeration just ended' % i)
            if want is not None and s.n < want:
                return bad('incomplete', 'consumer %d: ended after %d of %d states' % (i, s.n, want))
            return None
        if s.over:
            return bad('revived', 'consumer %d: a state came after the end' % i)
        s.n += 1
        sol, like = x
        like = float(like)
        env.event('got', i, s.n, repr(like))
        if r.impossible:
            return bad('impossible', 'consumer %d: a state although the evidence is impossible' % i)
        if math.isnan(like) or like <= 0:
            return bad('likelihood', 'consumer %d: likelihood %r' % (i, like))
        if like > s.last * (1 + 1e-9):
            return bad('order', 'consumer %d: likelihood %r after %r' % (i, like, s.last))
        s.last = like
        if want is not None:
            if s.n > want:
                return bad('repeat', 'consumer %d: state %d although there are %d' % (i, s.n, want))
            if not ref.close(like, r.items[s.n - 1][2], 1e-6):
                return bad('rank', 'consumer %d: state %d has likelihood %r, should be %r' % (i, s.n, like, r.items[s.n - 1][2]))
            st = state_of(sol)
            k = r.find(st, like, s.used)
            if k is None:
                again = r.find(st, like, ())
                return bad('repeat' if again is not None else 'state', 'consumer %d: %s (likelihood %r) is %s' % (
                    i, st, like, 'repeated' if again is not None else 'not a state of that likelihood'))
            s.used.add(k)
        return None

    for n, st in enumerate(plan['steps']):
        k, c = st[0], st[1]
        most = max(most, sum(1 for s in streams.values() if not s.over))
        if k in ('next', 'all'):
            c %= len(plan['cons'])
            todo = st[2] if k == 'next' else 10 ** 9
            r = refs[plan['cons'][c]['ev']]
            if k == 'all' and (r.items is None or len(r.items) > 400):
                todo = 40
            for _ in range(todo):
                v = advance(c)
                if v:
                    return v
                if streams[c].over:
                    v = advance(c) if k == 'all' else None      # ended streams stay ended
                    if v:
                        return v
                    break
        elif k == 'query':
            env.count('op:' + st[1])
            e = plan['evs'][st[2] % len(plan['evs'])]
            ev = worlds.evidence(m, e) if e is not None else {}
            try:
                if st[1] == 'mpe':
                    m.mpe(ev, fail_on_unsatisfiability=False)
                elif st[1] == 'cond':
                    m.conditional_jpt(ev, fail_on_unsatisfiability=False)
                elif st[1] == 'infer':
                    m.infer({}, ev, fail_on_unsatisfiability=False)
                elif st[1] == 'show':
                    repr(m)
                else:
                    next(m.kmpe(ev, False), None)
            except Exception:
                pass                                            # for other properties to judge
        elif k == 'close':
            c %= len(plan['cons'])
            env.count('fault:abandon')
            if c in streams and streams[c].gen is not None:
                streams[c].gen.close()
                streams[c].over = True
        elif k == 'reopen':
            open_(c % len(plan['cons']))
        elif k == 'fault':
            c %= len(plan['cons'])
            s = streams.get(c) or open_(c)
            if s.over or s.gen is None:
                continue
            at = int(math.exp(math.log(3000) * st[3])) + 1
            t = simsched.Tracer(env.prefix, False, (at, st[2]), 30000000)
            try:
                with t:
                    next(s.gen, None)
            except BaseException as e:
                if not t.fired and isinstance(e, simsched.SimHang):
                    return bad('hang', 'consumer %d' % c)
            if t.fired:
                env.count('fault:' + st[2])
            streams.pop(c)                                       # whatever happened to it, nobody else may notice
    if plan['mpe']:
        for i, r in enumerate(refs):
            if not r.items or r.items[0][2] == math.inf:
                continue
            e = plan['evs'][i]
            try:
                res = m.mpe(worlds.evidence(m, e) if e is not None else {}, fail_on_unsatisfiability=False)
            except Exception:
                continue
            env.count('op:mpe')
            if any(c[0] == 'dirac' for it in r.items for c in it[1].values()):
                continue
            if not ref.close(float(res[1]), r.items[0][2], 1e-6):
                return bad('mpe', 'mpe() says %r, the first explanation has %r' % (float(res[1]), r.items[0][2]), 'mpe')
    out['sets']['distinct'] = [rng_.derive(repr(plan['steps']), repr(plan['evs']), repr(w['rows']))] if reads > 1 or most > 1 else []
    out['sets']['state_spaces'] = ['%d:%s' % (len(r.items), sorted({len(set(c[0] for c in z)) for z in [list(it[1].values()) for it in r.items[:1]]}))
                                   if r.items is not None else 'large' for r in refs]
    out['sample'] = {'steps': plan['steps'][:12], 'states': [len(r.items) if r.items is not None else None for r in refs]}
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 1)
    yield from shrinkers.world(plan)
    for i, e in enumerate(plan['evs']):
        if e is not None:
            for k in list(e['map']):
                yield shrinkers._with(plan, ['evs', i, 'map'], {a: b for a, b in e['map'].items() if a != k})
    yield from shrinkers.put(plan, ['mpe'], False)
