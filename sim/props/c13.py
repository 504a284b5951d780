"""C13: a saved model gives the same answers in every process."""
import base64
import io
import random

import ops
import shrinkers
import worlds

RUNS = {'quick': 1200, 'thorough': 60000}
STAGES = 2
RULE = ('one evaluation = one stored model asked up to 20 queries in two processes (2 of 8 lanes that differ in hash seed, address layout '
        'and locale of the heap), with hostile contents of fresh memory, other states of the random generators, a jumping clock and other earlier '
        'queries and models in each; distinct by (query, model); non-trivial = both processes answered and the answers were compared')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas'],
    'simulated': ['hash randomisation and address layout (lanes)', 'contents of fresh array memory', 'clock', 'random generators', 'earlier history of the process'],
    'reference': ['the answers of the other process'],
}
ASSUMPTIONS = ['of an error only its type is compared',
               'the iteration order of Python sets carries no meaning']
KINDS = ['infer', 'posterior', 'expectation', 'mpe', 'kmpe', 'cond', 'pdf', 'likelihood', 'encode', 'apply', 'moment', 'prune', 'copy',
         'tojson', 'cleaf', 'leafp', 'leafmpe', 'sample', 'dist', 'dist', 'show', 'hyper']


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([5, 8, 15, 25, 40]))
    n_ev = 3
    mk = lambda n, kinds: [ops.gen_op(rng, w, n_ev, [rng.choice(kinds)]) for _ in range(n)]
    return {'world': w, 'evs': [worlds.gen_evidence(rng, w, p=.45) for _ in range(n_ev)],
            'queries': mk(rng.choice([6, 10, 15]), KINDS),
            'early': [mk(rng.choice([0, 0, 3, 6]), KINDS) for _ in range(2)],
            'other': [rng.random() < .3 for _ in range(2)],
            'mem': [rng.choice([0, 1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 4, 5])], 'fill': [rng.randrange(256), rng.randrange(256)],
            'seed': [rng.randrange(1 << 30), rng.randrange(1 << 30)],
            'clock': rng.random() < .3, 'protocol': rng.choice(['pickle', 'json']), 'cond': rng.random() < .4}


def order(x, depth=0):
    """order in which the parts of an ordered answer come"""
    from jpt.variables import VariableMap
    if depth > 6:
        return None
    if isinstance(x, VariableMap):
        return [[v.name for v in x.keys()], [order(y, depth + 1) for y in x.values()]]
    if isinstance(x, dict):
        return [[str(k) for k in x], [order(y, depth + 1) for y in x.values()]]
    if isinstance(x, (list, tuple)):
        return [order(y, depth + 1) for y in x]
    return None


def answer(c, op, env):
    try:
        x = c.run(op)
    except Exception as e:
        return [env.canon(e), None]
    return [env.canon(x), order(x)]


def run(plan, env, stage, carry):
    import numpy as np
    from jpt.trees import JPT
    w = plan['world']
    if stage == 0:
        m = env.build(w)
        f = io.StringIO() if plan['protocol'] == 'json' else io.BytesIO()
        m.save(f, protocol=plan['protocol'])
        data = f.getvalue()
        data = base64.b64encode(data.encode() if plan['protocol'] == 'json' else data).decode()
    else:
        data = carry[0]
    env.ms.ms_install()
    env.ms.ms_config(plan['mem'][stage], plan['seed'][stage], plan['fill'][stage], -1, 0)
    np.random.seed(plan['seed'][stage])
    random.seed(plan['seed'][stage])
    if plan['clock'] and env.fs is not None:
        env.fs.ck_arm(plan['seed'][stage], 10 ** 18 if stage else 10 ** 15)
    try:
        if plan['other'][stage]:
            w2 = dict(w, cols=[dict(c) for c in w['cols']], rows=[list(r) for r in w['rows']][::-1], derive=[])
            try:
                worlds.learn(w2)
            except Exception:
                pass
            env.count('fault:other models in the process')
        d = base64.b64decode(data)
        try:
            m = JPT.load(io.StringIO(d.decode()) if plan['protocol'] == 'json' else io.BytesIO(d), protocol=plan['protocol'])
        except Exception as e:
            raise env.Skip('does not load: %s' % type(e).__name__)
        c = ops.Client(m, w, plan['evs'])
        for op in plan['early'][stage]:
            ops.outcome(c, op, env.canon)
            env.count('fault:earlier query')
        got = [answer(c, op, env) for op in plan['queries']]
        if plan['cond']:
            # the answers of a conditional model
            try:
                m2 = m.conditional_jpt(c.evs[0])
            except Exception as e:
                m2 = None
                got.append([env.canon(e), None])
            if m2 is not None:
                c2 = ops.Client(m2, w, plan['evs'])
                got += [answer(c2, op, env) for op in plan['queries'][:6]]
        filled = env.ms.ms_filled()
    finally:
        env.ms.ms_config(0, 0, 0, -1, 0)
        if plan['clock'] and env.fs is not None:
            env.count('fault:jumping clock readings', env.fs.ck_reads())
            env.fs.ck_disarm()
    env.count('fault:hostile fresh arrays', filled)
    env.event(got)
    for op in plan['queries']:
        env.count('op:' + op['k'])
    if stage == 0:
        return {'carry': [data, got, env.lane], 'sample': {'queries': [o['k'] for o in plan['queries']], 'mem': plan['mem'], 'derive': w['derive']}}
    env.count('fault:other process')
    out = {'sets': {'distinct': []}}
    if len(got) != len(carry[1]):
        out['violation'] = {'kind': 'answer', 'site': 'cond', 'msg': 'conditioning succeeds in one process only'}
        return out
    for k, (a, b) in enumerate(zip(carry[1], got)):
        q = plan['queries'][k] if k < len(plan['queries']) else {'k': 'conditional model, ' + str(k - len(plan['queries']))}
        out['sets']['distinct'].append('%s %s %d' % (sorted(q.items(), key=lambda t: t[0]) if len(q) < 4 else q['k'], w['rows'][0], k))
        diff = env.canon_diff(a[0], b[0])
        if diff:
            out['violation'] = {'kind': 'answer', 'site': q['k'], 'msg': '%s in lane %s vs lane %s: %s' % (q, carry[2], env.lane, diff)}
            return out
        diff = env.canon_diff(a[1], b[1])
        if diff:
            out['violation'] = {'kind': 'order', 'site': q['k'], 'msg': 'order of the answer to %s in lane %s vs lane %s: %s' % (q, carry[2], env.lane, diff)}
            return out
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['queries'], 1)
    for s in (0, 1):
        yield from shrinkers.drop_items(plan, ['early', s])
        if plan['other'][s]:
            yield dict(plan, other=[False if i == s else x for i, x in enumerate(plan['other'])])
        if plan['mem'][s]:
            yield dict(plan, mem=[0 if i == s else x for i, x in enumerate(plan['mem'])])
    for k in ('clock', 'cond'):
        if plan[k]:
            yield dict(plan, **{k: False})
    yield from shrinkers.world(plan)
    yield from shrinkers.evidences(plan)
