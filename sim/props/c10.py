"""C10: sequence models are a function of their sequences; answers about step i concern exactly the i-th step."""
import json
import pickle

import history
import ref
import rng as rng_
import shrinkers
import simsched
import worlds
from props import c16

RUNS = {'quick': 900, 'thorough': 40000}
STAGES = 2
RULE = ('one evaluation = one history of fits (complete, rejected, interrupted), of learning the template itself, storing and '
        'reloading, and of queries over up to 16 steps on one sequence model, continued in a differently laid out process; '
        'distinct by (history, sequences, queries); non-trivial = at least one fit and one possible query were compared')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'factorgraph, numpy, pandas'],
    'simulated': ['order of operations', 'asynchronous exceptions during fits and queries', 'process restarts with other hash seed and layout'],
    'reference': ['fit of a fresh object', 'transition counts from the paths of the leaves', 'forward-backward sums over the chain'],
}
ASSUMPTIONS = ['the chain is the one the code documents: one factor per step (its leaf probabilities given the evidence of that step), one '
               'per transition (joint frequencies), zero marginals replaced by a tenth of the smallest positive one']
TOL = 1e-4
Bad = c16.Bad
near = c16.near


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([8, 15, 25, 40]), n_cols=rng.choice([1, 2, 2, 3]), derive_ok=False, deps=False)
    w.pop('infer', None)
    w['derive'] = []
    n = len(w['rows'])
    order = sorted(range(n), key=lambda i: repr(w['rows'][i]))
    sets = []
    for _ in range(rng.choice([2, 3])):
        seqs = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            p, s = rng.randrange(n), []
            for _ in range(rng.choice([3, 4, 6, 10, 20])):
                s.append(order[p])
                p = (p + rng.choice([0, 1, 1, 2, n // 3, rng.randrange(n)])) % n
            seqs.append(s)
        sets.append(seqs)
    queries = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice([1, 2, 3, 5, 9, 11, 12, 16] + ([40, 110] if rng.random() < .05 else []))
        p = rng.choice([.05, .2, .5])
        q = []
        for _ in range(k):
            if rng.random() < .5 or k > 20 and rng.random() < .95:
                q.append(None if rng.random() < .2 else {'form': 'dict', 'map': {}})
            else:
                q.append(worlds.gen_evidence(rng, w, p=p, singletons=False))
        queries.append(q)
    steps = [['fit', rng.randrange(len(sets)), rng.choice([2, 2, 2, 3])]] if rng.random() < .8 else []
    for _ in range(rng.choice([2, 4, 7])):
        r = rng.random()
        k, ts = rng.randrange(len(sets)), rng.choice([2, 2, 2, 3])
        x = [rng.choice(history.EXC), rng.random(), rng.random() < .3]
        if r < .3:
            steps.append(['fit', k, ts])
        elif r < .6:
            steps.append(['query', rng.randrange(len(queries))])
        elif r < .68:
            steps.append(['bad', rng.choice(['short', 'columns', 'label', 'empty'])])
        elif r < .78:
            steps += [['intr', k, ts] + x, ['fit', rng.randrange(len(sets)), ts]]
        elif r < .84:
            steps.append(['intrq', rng.randrange(len(queries))] + x)
        elif r < .9:
            steps.append([rng.choice(['json', 'pickle'])])
        else:
            steps += [['learn', rng.randrange(100)], ['fit', k, ts]]
    steps.append(['query', rng.randrange(len(queries))])
    return {'world': w, 'sets': sets, 'queries': queries, 'steps': steps, 'object': rng.random() < .5,
            'restart': rng.randrange(len(steps)), 'protocol': rng.choice(['pickle', 'json'])}


def sequences(plan, k):
    import numpy as np
    w = plan['world']
    out = []
    for s in plan['sets'][k % len(plan['sets'])]:
        rows = [w['rows'][i % len(w['rows'])] for i in s]
        a = worlds.objects(rows, len(rows), len(w['cols']))
        if all(c['kind'] in ('num', 'snum') for c in w['cols']) and not plan['object']:
            a = a.astype(np.float64)
        out.append(a)
    return out


def fresh(plan):
    from jpt.sequential_trees import SequentialJPT
    return SequentialJPT(worlds.unlearned(plan['world']))


def state(s, env):
    t = s.transition_model
    return [env.canon(s.template_tree), None if t is None else [[float(x) for x in r] for r in t]]


def fit(s, plan, k, ts):
    s.fit(sequences(plan, k), timesteps=ts)


def steps_of(m, plan, q):
    """the evidence of a query, step by step, in the form the model gets it and in plain form; None if it rejects its form"""
    r = ref.Model(m)
    objs, plains = [], []
    for e in plan['queries'][q % len(plan['queries'])]:
        if e is None:
            objs.append(None)
            plains.append({})
            continue
        x = c16.event(r, m, e)
        if x is None or c16.singular(r, x[0]):
            return None
        objs.append(x[1])
        plains.append(x[0])
    return objs, plains


def transitions(s, plan, k):
    """joint frequencies of consecutive leaves"""
    r = ref.Model(s.template_tree)
    w = plan['world']
    names = [c['name'] for c in w['cols']]
    where = {}
    for i, row in enumerate(w['rows']):
        va = s.template_tree.bind({n: x for n, x in zip(names, row)}, allow_singular_values=True).value_assignment()
        vals = {v.name: r.plain(v, x) for v, x in va.items()}
        where[i] = [l[0] for l in r.leaves if all(r.meet(n, vals[n], l[2][n]) for n in l[2])]
    counts, total = {}, 0
    for q in plan['sets'][k % len(plan['sets'])]:
        q = [i % len(w['rows']) for i in q]
        for a, b in zip(q, q[1:]):
            if len(where[a]) != 1 or len(where[b]) != 1:
                return None
            key = where[a][0], where[b][0]
            counts[key] = counts.get(key, 0) + 1
            total += 1
    return {k_: c / total for k_, c in counts.items()}


def marginals(T, factors):
    """exact marginals of a chain; None if it is impossible"""
    n = len(factors)
    L = range(len(factors[0]))

    def norm(v):
        z = sum(v)
        return [x / z for x in v] if z > 0 else None
    fwd = [norm(factors[0])]
    for t in range(1, n):
        if fwd[-1] is None:
            return None
        fwd.append(norm([sum(fwd[-1][a] * T[a][b] for a in L) * factors[t][b] for b in L]))
    if fwd[-1] is None:
        return None
    bwd = [None] * n
    bwd[-1] = [1.] * len(L)
    for t in range(n - 2, -1, -1):
        bwd[t] = norm([sum(T[a][b] * factors[t + 1][b] * bwd[t + 1][b] for b in L) for a in L])
        if bwd[t] is None:
            return None
    return [norm([a * b for a, b in zip(f, g)]) for f, g in zip(fwd, bwd)]


def ask(s, plan, q, env, who, out):
    m = s.template_tree
    x = steps_of(m, plan, q)
    if x is None:
        return
    objs, plains = x
    r = ref.Model(m)
    ids = [l[0] for l in r.leaves]
    masses = [r.leaf_masses(p) for p in plains]
    before = state(s, env)
    err = res = None
    try:
        res = s.independent_marginals(objs)
    except Exception as e:
        err = e
    after = state(s, env)
    d = env.canon_diff(before, after)
    if d:
        raise Bad('changed', '%s changes the model: %s' % (who, d), 'query')
    pos = list(m.leaves)                # the transition model is in this order
    T = [[float(s.transition_model[pos.index(a)][pos.index(b)]) for b in ids] for a in ids]
    sums = [sum(p) for p in masses]
    if any(0 < z < 1e-6 for z in sums) or any(0 < p < 1e-9 for v in masses for p in v):
        return
    factors = [[p / z for p in v] if z else v for v, z in zip(masses, sums)]
    marg = marginals(T, factors) if all(sums) else None
    if marg is None:
        env.count('probe:impossible')
        if res is not None:
            raise Bad('impossible', '%s: the sequence is impossible (probabilities of the steps: %s) but there is an answer' % (who, ['%.3g' % z for z in sums]), 'query')
        return
    if any(0 < p < 1e-9 for v in marg for p in v):
        return
    if err is not None:
        raise Bad('failed', '%s: %s: %s' % (who, type(err).__name__, str(err)[:200]), type(err).__name__)
    if len(res) != len(plains):
        raise Bad('length', '%s: %d answers for %d steps' % (who, len(res), len(plains)), 'query')
    env.count('probe:steps', len(res))
    for t, (tree, mu, f) in enumerate(zip(res, marg, factors)):
        low = min(p for p in mu if p > 0)
        p = [(a if a > 0 else .1 * low) * b for a, b in zip(mu, f)]
        z = sum(p)
        want = {i: a / z for i, a in zip(ids, p)}
        for i in ids:
            got = float(tree.leaves[i].prior) if i in tree.leaves else 0.
            if not near(got, want[i], TOL):
                raise Bad('marginal', '%s, step %d of %d: probability of leaf %s is %r, should be %r' % (who, t, len(res), i, got, want[i]), 'marginal')
        dists = {l[0]: l[3] for l in r.leaves}
        for i, l in tree.leaves.items():
            if want.get(i, 0.) < 1e-6:
                continue
            path = next(x[2] for x in r.leaves if x[0] == i)
            for v in m.variables:
                e = plains[t].get(v.name)
                d = c16.same_dist(v, l.distributions[tree.varnames[v.name]], *c16.entry(dists[i][v.name], e))
                if d:
                    raise Bad('leaf', '%s, step %d of %d, leaf %s: %s' % (who, t, len(res), i, d), 'leaf')
    out['asked'] = True


def reload(s, protocol):
    from jpt.sequential_trees import SequentialJPT
    if protocol == 'json':
        return SequentialJPT.from_json(json.loads(json.dumps(s.to_json())))
    return pickle.loads(pickle.dumps(s))


def run(plan, env, stage, carry):
    w = history.World(plan, env)
    out = {'sets': {}, 'stop': False}
    got = {'asked': False}
    want = {}

    def reference(k, ts):
        k %= len(plan['sets'])
        if (k, ts) not in want:
            def f():
                try:
                    s = fresh(plan)
                    fit(s, plan, k, ts)
                except Exception as e:
                    return ('exc', type(e).__name__)
                return ('ok', state(s, env))
            want[k, ts] = env.solo(f)
        return want[k, ts]

    start, fits, fitted = 0, 0, None
    try:
        if stage == 0:
            s = fresh(plan)
        else:
            s = load(carry['s'], plan['protocol'])
            start, fits, fitted = carry['at'], carry['fits'], carry['fitted']
            got['asked'] = carry['asked']
            if fitted:
                d = env.canon_diff(carry['state'], state(s, env))
                if d:
                    raise Bad('restart', 'not the same model after storing it and loading it in another process: %s' % d, 'restart')
                kind, ref_ = reference(*fitted)
                if kind == 'ok':
                    d = env.canon_diff(ref_, state(s, env))
                    if d:
                        raise Bad('process', 'fitting the same sequences in another process gives another model: %s' % d, 'process')
        for n in range(start, len(plan['steps'])):
            st = plan['steps'][n]
            k = st[0]
            who = 'operation %d (%s)' % (n, k)
            if stage == 0 and n >= plan['restart'] and fitted and 'carry' not in out:
                out['carry'] = {'s': store(s, plan['protocol']), 'at': n, 'fits': fits, 'fitted': fitted, 'state': state(s, env), 'asked': got['asked']}
                env.count('op:restart')
                return out
            env.event(n, k)
            env.count('op:' + k)
            if k == 'fit':
                kind, ref_ = reference(st[1], st[2])
                try:
                    fit(s, plan, st[1], st[2])
                except Exception as e:
                    if kind == 'ok':
                        raise Bad('failed', '%s: %s: %s' % (who, type(e).__name__, str(e)[:200]), type(e).__name__)
                    raise env.Skip('fit: ' + type(e).__name__)
                if kind != 'ok':
                    raise Bad('accepted', '%s succeeds, with a fresh object it raises %s' % (who, ref_), 'fit')
                d = env.canon_diff(ref_, state(s, env))
                if d:
                    raise Bad('history', '%s differs from a fit of a fresh object: %s' % (who, d), 'fit')
                fits += 1
                fitted = [st[1] % len(plan['sets']), st[2]]
                T = transitions(s, plan, st[1])
                if T is not None:
                    pos = list(s.template_tree.leaves)
                    for a, i in enumerate(pos):
                        for b, j in enumerate(pos):
                            if not near(float(s.transition_model[a][b]), T.get((i, j), 0.)):
                                raise Bad('transition', '%s: frequency of leaf %s to %s is %r, should be %r' % (
                                    who, i, j, float(s.transition_model[a][b]), T.get((i, j), 0.)), 'transition')
            elif k == 'learn':
                rows = [plan['world']['rows'][(i * 7 + st[1]) % len(plan['world']['rows'])] for i in range(len(plan['world']['rows']))]
                try:
                    worlds.learn(plan['world'], model=s.template_tree, rows=rows)
                except Exception:
                    pass
                fitted = None
            elif k == 'intr':
                before = None
                try:
                    if w.interrupted(lambda: fit(s, plan, st[1], st[2]), *st[3:6]):
                        fitted = None
                    else:
                        fitted = [st[1] % len(plan['sets']), st[2]]
                except Exception as e:
                    raise env.Skip('fit: ' + type(e).__name__)
            elif not fitted:
                continue
            elif k == 'query':
                ask(s, plan, st[1], env, who, got)
            elif k == 'bad':
                before = state(s, env)
                try:
                    bad_fit(s, plan, st[1])
                    raise env.Skip('accepted')
                except env.Skip:
                    raise
                except Exception:
                    env.count('fault:' + st[1])
                d = env.canon_diff(before, state(s, env))
                if d:
                    raise Bad('rejected', '%s %s was rejected but changes the model: %s' % (who, st[1], d), 'bad')
            elif k == 'intrq':
                before = state(s, env)
                x = steps_of(s.template_tree, plan, st[1])
                if x is not None:
                    try:
                        w.interrupted(lambda: s.independent_marginals(x[0]), *st[2:5])
                    except Exception:
                        pass
                    d = env.canon_diff(before, state(s, env))
                    if d:
                        raise Bad('changed', '%s, an interrupted query, changes the model: %s' % (who, d), 'query')
            else:
                before = state(s, env)
                s = reload(s, k)
                d = env.canon_diff(before, state(s, env))
                if d:
                    raise Bad('reload', '%s is not the same model: %s' % (who, d), 'reload')
    except Bad as b:
        out['violation'] = b.v
        return out
    out['stop'] = True
    out['sets']['distinct'] = [rng_.derive(repr(plan['steps']), repr(plan['sets']), repr(plan['queries']), repr(plan['world']['rows']))] if fits and got['asked'] else []
    out['sets']['lengths'] = ['%d' % len(q) for q in plan['queries']]
    out['sample'] = {'operations': [x[0] for x in plan['steps']], 'sequences': [[len(q) for q in x] for x in plan['sets']], 'query lengths': [len(q) for q in plan['queries']]}
    return out


def bad_fit(s, plan, kind):
    seqs = sequences(plan, 0)
    if kind == 'short':
        seqs = seqs + [seqs[0][:1]]
    elif kind == 'columns':
        import numpy as np
        seqs = seqs + [np.concatenate([seqs[0], seqs[0]], axis=1)]
    elif kind == 'label':
        c = plan['world']['cols'][0]
        a = worlds.objects([list(r) for r in seqs[0]], len(seqs[0]), len(plan['world']['cols']))
        a[0, 0] = 'no such label' if c['kind'] != 'int' else 10 ** 6
        seqs = [a] + seqs
    else:
        seqs = []
    s.fit(seqs)


def store(s, protocol):
    import base64
    return json.dumps(s.to_json()) if protocol == 'json' else base64.b64encode(pickle.dumps(s)).decode()


def load(d, protocol):
    import base64
    from jpt.sequential_trees import SequentialJPT
    return SequentialJPT.from_json(json.loads(d)) if protocol == 'json' else pickle.loads(base64.b64decode(d))


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 1)
    yield from shrinkers.drop_items(plan, ['sets'], 1)
    for i in range(len(plan['sets'])):
        yield from shrinkers.drop_items(plan, ['sets', i], 1)
        for j in range(len(plan['sets'][i])):
            yield from shrinkers.drop_items(plan, ['sets', i, j], 3)
    yield from shrinkers.drop_items(plan, ['queries'], 1)
    for i, q in enumerate(plan['queries']):
        yield from shrinkers.drop_items(plan, ['queries', i], 1)
        for j, e in enumerate(q):
            if e and e['map']:
                yield shrinkers._with(plan, ['queries', i, j], {'form': 'dict', 'map': {}})
    yield from shrinkers.world(plan)
