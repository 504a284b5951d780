"""C05: rejected or interrupted learning corrupts neither the model nor the data."""
import ops
import rng as rng_
import simsched
import shrinkers
import worlds

RUNS = {'quick': 1000, 'thorough': 60000}
RULE = ('one evaluation = one history of 1-5 learning attempts with one model object (successful, rejected because of bad '
        'data, interrupted, or out of memory), followed by a last undisturbed one whose result is compared with that of '
        'a fresh learner; non-trivial = at least one attempt failed; distinct by (kind of failure, code location or '
        'failed allocation, kind of data container)')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, scipy'],
    'simulated': ['asynchronous exceptions at a seeded line/byte-code event of jpt', 'failing array allocations',
                  'malformed data sets'],
}
ASSUMPTIONS = ['asynchronous exceptions are delivered at line/byte-code boundaries of jpt frames']
BAD = ['label', 'label', 'type', 'int', 'missing', 'extra', 'order', 'empty', 'both', 'none', 'short', 'ragged', 'nan', 'inf',
       'null', 'wrongtype', 'norows', 'width']


def gen(rng, idx):
    w = worlds.gen_world(rng, derive_ok=False)
    steps = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(['ok', 'bad', 'bad', 'bad', 'interrupt', 'interrupt', 'alloc'])
        s = {'k': k, 'x': rng.random(), 'seed': rng.getrandbits(32), 'rows': rng.choice(['same', 'same', 'half', 'perm'])}
        if k == 'bad':
            s['bad'] = rng.choice(BAD)
        elif k == 'interrupt':
            s['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'TimeoutError', 'RecursionError'])
        steps.append(s)
    if rng.random() < .6:
        steps.insert(0, {'k': 'ok', 'x': 0, 'seed': rng.getrandbits(32), 'rows': rng.choice(['same', 'half', 'perm'])})
    return {'world': w, 'steps': steps, 'opcodes': rng.random() < .3, 'evs': [worlds.gen_evidence(rng, w, form='dict')],
            'probes': ops.probe_ops(rng, w, 1, 4)}


def pick_rows(w, s):
    r = rng_.stream(s['seed'], 'rows')
    rows = [list(x) for x in w['rows']]
    if s['rows'] == 'half':
        rows = rows[::2] or rows
    elif s['rows'] == 'perm':
        r.shuffle(rows)
    return rows


def bad_args(w, s):
    """learning arguments that do not fit the variables; None if there is no such thing in this world"""
    import numpy as np
    import pandas as pd
    r = rng_.stream(s['seed'], 'bad')
    rows = pick_rows(w, s)
    b = s['bad']
    kinds = [c['kind'] for c in w['cols']]
    at = r.randrange(len(rows))

    def put(want, v):
        idx = [i for i, k in enumerate(kinds) if k in want]
        if not idx:
            return None
        i = r.choice(idx)
        rows[at][i] = v
        return worlds.learn_args(dict(w, **({'as': 'rows'} if w['as'] == 'df' and r.random() < .5 else {})), rows) \
            if w['as'] != 'df' else {'data': pd.DataFrame(rows, columns=[c['name'] for c in w['cols']])}
    if b == 'label':
        return put(('sym',), 'no such label')
    if b == 'type':
        return put(('num', 'snum'), 'not a number')
    if b == 'int':
        return put(('int',), 10 ** 6)
    if b == 'nan':
        return put(('num', 'snum'), float('nan'))
    if b == 'inf':
        return put(('num', 'snum'), r.choice([float('inf'), float('-inf')]))
    if b == 'null':
        return put(('sym', 'bool', 'int'), None)
    df = worlds.dataframe(w, rows)
    if b == 'missing':
        return {'data': df.drop(columns=[r.choice(list(df.columns))])}
    if b == 'extra':
        return {'data': df.assign(unknown=1.)}
    if b == 'order':
        return {'data': df[list(df.columns)[::-1]]}
    if b == 'empty':
        return {'data': df.iloc[:0]}
    if b == 'norows':
        return r.choice([{'rows': []}, {'columns': []}, {'data': []}, {'columns': [[] for _ in kinds]},
                         {'rows': np.empty((0, len(kinds)))}])
    if b == 'both':
        return {'data': df, 'rows': rows}
    if b == 'none':
        return {}
    if b == 'short':
        return {'columns': [[x[i] for x in rows] for i in range(len(kinds) - 1)]}
    if b == 'width':
        return {'columns': [[x[i] for x in rows] for i in range(len(kinds))] + [[0.] * len(rows)]}
    if b == 'ragged':
        if r.random() < .5:
            rows[at] = rows[at][:-1]
            return {'rows': rows}
        c = [[x[i] for x in rows] for i in range(len(kinds))]
        c[r.randrange(len(c))].pop()
        return {'columns': c}
    return {'data': r.choice(['nonsense', 7, {'a': 1}, [1, 2, 3]])}


def run(plan, env, stage, carry):
    w = plan['world']
    observe = lambda m: [env.canon(m), [ops.outcome(ops.Client(m, w, plan['evs']), p, env.canon) for p in plan['probes']]]
    try:
        ref = env.solo(lambda: observe(worlds.learn(w)))
    except RuntimeError as e:
        raise env.Skip('no model: %s' % str(e)[-300:])
    m = worlds.unlearned(w)
    out = {'sample': {'steps': plan['steps'], 'as': w['as']}, 'sets': {'distinct': []}}
    env.ms.ms_install()
    for i, s in enumerate(plan['steps']):
        k = s['k']
        env.count('op:' + (k if k != 'bad' else 'bad ' + s['bad']))
        args = bad_args(w, s) if k == 'bad' else worlds.learn_args(w, pick_rows(w, s))
        if args is None:
            continue
        given = {a: env.canon(x) for a, x in args.items()}
        go = lambda: m.learn(keep_samples=w['keep'], close_convex_gaps=w['gaps'], **args)
        before = None
        if k == 'bad' and m.root is not None:
            before = observe(m)
        fault, at = None, None
        if k in ('interrupt', 'alloc'):
            def dry():
                env.ms.ms_config(0, 0, 0, -1, 0)
                n0 = env.ms.ms_allocs()
                with simsched.Tracer(env.prefix, plan['opcodes']) as t:
                    try:
                        go()
                    except Exception:
                        pass
                return [t.n, env.ms.ms_allocs() - n0]
            n = env.solo(dry)
            if k == 'interrupt' and n[0]:
                fault = [1 + int(s['x'] * n[0]), s['exc']]
            elif k == 'alloc' and n[1]:
                at = 1 + int(s['x'] * n[1])
        t = simsched.Tracer(env.prefix, plan['opcodes'], fault, 8000000)
        try:
            env.ms.ms_config(0, 0, 0, -1 if at is None else at, 0)
            with t:
                go()
            how = 'ok'
        except simsched.SimHang as e:
            out['violation'] = {'kind': 'hang', 'site': k, 'msg': str(e)}
            return out
        except BaseException as e:
            how = type(e).__name__
        finally:
            failed = env.ms.ms_failed()
            env.ms.ms_config(0, 0, 0, -1, 0)
        env.count('steps', t.n)
        if t.fired:
            env.count('fault:' + fault[1])
            out['sets']['distinct'].append('%s@%s:%s' % (fault[1], t.fired[0], t.fired[1]))
        if failed:
            env.count('fault:failed allocation')
            out['sets']['distinct'].append('alloc %d of %d' % (at, n[1]))
        if how != 'ok' and k == 'bad':
            env.count('fault:bad data')
            out['sets']['distinct'].append('%s %s %s' % (s['bad'], how, sorted(args)))
        env.event(i, k, how, t.n, t.fired)
        now = {a: env.canon(x) for a, x in args.items()}
        d = env.canon_diff(given, now, 0)
        if d:
            out['violation'] = {'kind': 'data', 'site': k, 'msg': 'data of attempt %d (%s, %s): %s' % (i, k, t.fired or how, d)}
            return out
        if before is not None and how != 'ok':
            try:
                after = observe(m)
                d = env.canon_diff(before, after)
            except Exception as e:
                d = '%s: %s' % (type(e).__name__, e)
            if d:
                out['violation'] = {'kind': 'rejected', 'site': s['bad'],
                                    'msg': 'model before vs after learning was rejected (%s, %s): %s' % (s['bad'], how, d)}
                return out
        if before is None and k == 'bad' and how != 'ok' and m.root is None and (m.leaves or m.innernodes):
            out['violation'] = {'kind': 'rejected', 'site': s['bad'],
                                'msg': 'unlearned model holds nodes after learning was rejected (%s, %s)' % (s['bad'], how)}
            return out
    try:
        worlds.learn(w, model=m)
        got = observe(m)
    except Exception as e:
        out['violation'] = {'kind': 'relearn', 'site': None, 'msg': 'learning again fails: %s: %s' % (type(e).__name__, e)}
        return out
    env.event(got)
    d = env.canon_diff(ref, got)
    if d:
        out['violation'] = {'kind': 'relearn', 'site': None, 'msg': 'fresh learner vs learning again: %s' % d}
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'])
    yield from shrinkers.drop_items(plan, ['probes'])
    yield from shrinkers.world(plan)
    yield from shrinkers.evidences(plan)
