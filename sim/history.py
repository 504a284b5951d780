"""Histories: a pool of live models and the operations that derive, change, store, reload and damage them.

A history is plain data. `World.step` executes one entry against the real package and reports which models it made or
touched; the properties judge those.
"""
import base64
import io
import math

import ops
import rng as rng_
import simsched
import worlds

MAX_POOL = 5
EXC = ['KeyboardInterrupt', 'MemoryError', 'RecursionError']
QUERIES = ['infer', 'posterior', 'expectation', 'mpe', 'kmpe', 'cond', 'pdf', 'likelihood', 'encode', 'apply', 'moment',
           'prune', 'copy', 'dumps', 'cleaf', 'leafp', 'leafmpe', 'show', 'dist', 'sample']


def gen_history(rng, singletons=True):
    w = worlds.gen_world(rng, n=rng.choice([5, 8, 15, 25, 40]), derive_ok=False)
    if rng.random() < .5:
        w['derive'] = []
    n_ev = rng.randint(2, 5)
    evs = [worlds.gen_evidence(rng, w, p=rng.choice([.25, .5]), singletons=singletons) for _ in range(n_ev)]
    for e in evs:
        if rng.random() < .75:
            e['map'] = {k: v for k, v in e['map'].items() if not (v[0] == 'iv' and v[1] > 0 and impossible(w, k, v))}
    idx = list(range(len(w['rows'])))
    rowsets = [sorted(rng.sample(idx, rng.randint(max(2, len(idx) // 2), len(idx)))) for _ in range(2)]
    steps = []
    n = rng.choice([3, 6, 10, 16, 25])
    for _ in range(n):
        r = rng.random()
        i = rng.randrange(100)
        if r < .25:
            steps.append(['cond', i, rng.randrange(n_ev)])
        elif r < .37:
            steps.append(['prune', i, rng.choice([.05, .2, .4, .7, .9])])
        elif r < .45:
            steps.append(['copy', i])
        elif r < .55:
            steps.append(['reload', i, rng.choice(['pickle', 'json'])])
        elif r < .66:
            steps.append(['mlp', i, [rng.choice([0, .1, .5, 1, 1, 3, 1e-3]) for _ in range(7)]])
        elif r < .71:
            steps.append(['relearn', i, rng.randrange(2)])
        elif r < .79:
            k = rng.choice(['mlp_missing', 'mlp_zero', 'learn_bad', 'learn_empty', 'cond_impossible', 'load_bad'])
            steps.append(['fail', i, k])
        elif r < .88:
            what = rng.choice([['cond', i, rng.randrange(n_ev)], ['prune', i, .3], ['copy', i], ['reload', i, rng.choice(['pickle', 'json'])],
                               ['relearn', i, rng.randrange(2)], ['query', i, ops.gen_op(rng, w, n_ev, QUERIES)]])
            steps.append(['intr', i, what, rng.choice(EXC), rng.random(), rng.random() < .3])
        elif r < .96:
            steps.append(['query', i, ops.gen_op(rng, w, n_ev, QUERIES)])
        else:
            steps.append(['restart', i])
    if rng.random() < .5 and not any(s[0] == 'restart' for s in steps):
        steps.insert(rng.randrange(len(steps) + 1), ['restart', 0])
    restarts = [k for k, s in enumerate(steps) if s[0] == 'restart']
    steps = [s for k, s in enumerate(steps) if s[0] != 'restart' or k == restarts[0]]
    return {'world': w, 'evs': evs, 'rowsets': rowsets, 'steps': steps, 'protocol': rng.choice(['pickle', 'json'])}


def impossible(w, name, v):
    i = [c['name'] for c in w['cols']].index(name)
    return v[1] > max(r[i] for r in w['rows'])


class World:

    def __init__(self, plan, env):
        self.plan, self.env, self.w = plan, env, plan['world']
        self.pool = []              # models
        self.ids = []
        self.next_id = 0

    def add(self, m):
        if len(self.pool) >= MAX_POOL:
            del self.pool[1], self.ids[1]
        self.pool.append(m)
        self.ids.append(self.next_id)
        self.next_id += 1
        return len(self.pool) - 1

    def ev(self, m, i):
        return worlds.evidence(m, self.plan['evs'][i % len(self.plan['evs'])])

    def save(self, m, protocol):
        f = io.StringIO() if protocol == 'json' else io.BytesIO()
        m.save(f, protocol=protocol)
        return f.getvalue()

    def load(self, data, protocol):
        from jpt.trees import JPT
        return JPT.load(io.StringIO(data) if protocol == 'json' else io.BytesIO(data), protocol=protocol)

    # what a restart of the process carries over
    def freeze(self):
        out = []
        for m in self.pool:
            d = self.save(m, self.plan['protocol'])
            out.append(d if isinstance(d, str) else base64.b64encode(d).decode())
        return {'models': out, 'ids': self.ids, 'next': self.next_id}

    def thaw(self, c):
        for d in c['models']:
            self.pool.append(self.load(d if self.plan['protocol'] == 'json' else base64.b64decode(d), self.plan['protocol']))
        self.ids, self.next_id = c['ids'], c['next']

    def rows(self, k):
        return [self.w['rows'][i] for i in self.plan['rowsets'][k % len(self.plan['rowsets'])] if i < len(self.w['rows'])] or self.w['rows']

    def weights(self, m, seed):
        return {i: seed[k % len(seed)] for k, i in enumerate(sorted(m.leaves))}

    def derive(self, m, st):
        """the model that a derivation step makes from m (an existing one is not changed)"""
        k = st[0]
        if k == 'cond':
            return m.conditional_jpt(self.ev(m, st[2]), fail_on_unsatisfiability=False)
        if k == 'prune':
            return m.prune(st[2])
        if k == 'copy':
            return m.copy()
        if k == 'reload':
            return self.load(self.save(m, st[2]), st[2])
        raise ValueError(k)

    def interrupted(self, fn, exc, x, opcodes):
        """run fn() with an asynchronous exception somewhere inside -> True if it was cut short"""
        at = int(math.exp(math.log(20000 if opcodes else 6000) * x)) + 1
        t = simsched.Tracer(self.env.prefix, opcodes, (at, exc), 50000000)
        try:
            with t:
                fn()
        except BaseException:
            if not t.fired:
                raise
        if t.fired:
            self.env.count('fault:' + exc)
        return t.fired

    def failing(self, m, kind):
        """an operation that has to be rejected; -> True if it raised"""
        try:
            if kind == 'mlp_missing':
                m.multiply_by_leaf_prior({i: .5 for i in sorted(m.leaves)[:-1]})
            elif kind == 'mlp_zero':
                m.multiply_by_leaf_prior({i: 0. for i in m.leaves})
            elif kind == 'learn_bad':
                m.learn(data=[['?' if c['kind'] in ('num', 'snum') else object() for c in self.w['cols']]] * 3)
            elif kind == 'learn_empty':
                m.learn(data=[])
            elif kind == 'cond_impossible':
                c = m.variables[0]
                m.conditional_jpt({c: 1e300 if c.numeric else 10 ** 9 if c.integer else 'no such label'})
            elif kind == 'load_bad':
                d = self.save(m, 'pickle')
                self.load(d[:len(d) // 2], 'pickle')
        except Exception as e:
            self.env.event('rejected', kind, type(e).__name__)
            return True
        return False
