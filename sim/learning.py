"""Histories of learning: what a tree is after each of them, whatever happened before and meanwhile. Used by C17, C18 and C19."""
import random

import reflearn
import rng as rng_
import shrinkers
import simsched
import worlds
from props import c04, c05

COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, scipy', 'CPython threads'],
    'simulated': ['content of fresh and freed array memory', 'failing array allocations', 'asynchronous exceptions', 'malformed data sets',
                  'thread scheduler', 'clock', 'random generators'],
    'reference': ['routing of rows, counts, empirical CDFs and gains of all admissible splits (plain Python, sim/reflearn.py)'],
}
OTHERS = ['learn', 'same', 'samevars', 'query', 'fail']


def gen(rng, idx):
    w = worlds.gen_world(rng, derive_ok=False)
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        k = rng.choice(['fit', 'fit', 'bad', 'interrupt', 'interrupt', 'alloc', 'other', 'reload', 'query'])
        steps.append(step(rng, k))
    steps.insert(rng.choice([0, len(steps), len(steps)]), step(rng, 'fit'))
    return {'world': w, 'steps': steps, 'mem': rng.choice([0, 1, 2, 3, 4, 5]), 'fill': rng.choice([0, 0xff, 0x7f, 1]),
            'clock': rng.random() < .3, 'rng': rng.getrandbits(31), 'seed': rng.getrandbits(32), 'share': rng.random() < .5,
            **worlds.gen_schedule(rng), 'preempt': None}


def step(rng, k):
    s = {'k': k, 'x': rng.random(), 'seed': rng.getrandbits(32), 'rows': rng.choice(['same', 'same', 'half', 'perm', 'twice', 'boot'])}
    if k == 'bad':
        s['bad'] = rng.choice(c05.BAD)
    elif k == 'interrupt':
        s['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'TimeoutError', 'RecursionError'])
    elif k == 'other':
        s['other'] = rng.choice(OTHERS)
    elif k == 'reload':
        s['protocol'] = rng.choice(['pickle', 'json', 'copy'])
    elif k == 'fit':
        s['others'] = [rng.choice(OTHERS) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    return s


def pick(w, s):
    r = rng_.stream(s['seed'], 'rows')
    if s['rows'] == 'twice':
        return [list(x) for x in w['rows']] * 2
    if s['rows'] == 'boot':
        return [list(r.choice(w['rows'])) for _ in w['rows']]
    return c05.pick_rows(w, s)


def run(plan, env, judge):
    """judge(model, rows, world) raises reflearn.Bad or returns counters"""
    import numpy as np
    w = plan['world']
    variables = worlds.make_variables(w)
    m = worlds.unlearned(w, variables)
    current = None
    out = {'sets': {'distinct': []}, 'sample': {'hyper': w['hyper'], 'steps': [[s['k'], s['rows']] for s in plan['steps']], 'n': len(w['rows'])}}
    np.random.seed(plan['rng'])
    random.seed(plan['rng'])
    env.ms.ms_install()
    config = lambda at=-1: env.ms.ms_config(plan['mem'], plan['seed'] & 0xffffffff, plan['fill'], at, 0)
    if plan['clock'] and env.fs is not None:
        env.fs.ck_arm(plan['seed'], 1700000000000000000)
    past = []
    try:
        for i, s in enumerate(plan['steps']):
            k = s['k']
            env.count('op:' + k)
            rows = pick(w, s)
            how = 'ok'
            config()
            if k in ('interrupt', 'alloc'):
                how = fails(plan, env, w, m, s, rows, config)
            elif k == 'bad':
                args = c05.bad_args(w, s)
                if args is not None:
                    try:
                        m.learn(keep_samples=w['keep'], close_convex_gaps=w['gaps'], **args)
                        current = None                      # whatever this is, it was accepted
                    except Exception as e:
                        how = type(e).__name__
                        env.count('fault:bad data')
            elif k == 'other':
                try:
                    c04.task(s['other'], s['seed'], w, variables if plan['share'] else worlds.make_variables(w), s['x'])()
                except Exception:
                    pass
                env.count('fault:other work')
            elif k == 'query':
                if current is not None:
                    for q in (m.mpe, m.expectation, m.posterior):
                        try:
                            q()
                        except Exception:
                            pass
            elif k == 'reload':
                if current is not None:
                    m = reload(m, s['protocol'])
            else:
                v = fit(plan, env, w, m, s, rows, variables, i, out)
                if v:
                    out['violation'] = v
                    return out
                current = rows
            if k in ('interrupt', 'alloc') and how == 'ok':
                current = rows
            config() if plan['mem'] else None
            past.append(k if how == 'ok' else k + ' ' + how)
            env.event(i, k, how)
            if current is None:
                continue
            try:
                c = judge(m, current, w)
            except reflearn.Bad as b:
                env.ms.ms_config(0, 0, 0, -1, 0)
                out['violation'] = dict(b.v, msg='after step %d (%s, %s): %s' % (i, k, how, b.v['msg']))
                return out
            env.event(c)
            for a, x in c.items():
                env.count('judged:' + a, x)
            out['sets']['distinct'].append(repr((past[-3:], s.get('others'), plan['mem'], sorted(c.items()))))
    finally:
        env.ms.ms_config(0, 0, 0, -1, 0)
        if plan['clock'] and env.fs is not None:
            env.count('fault:clock readings', env.fs.ck_reads())
            env.fs.ck_disarm()
    return out


def reload(m, protocol):
    import json
    import pickle
    from jpt.trees import JPT
    if protocol == 'copy':
        return m.copy()
    if protocol == 'pickle':
        return pickle.loads(pickle.dumps(m))
    return JPT.from_json(json.loads(json.dumps(m.to_json())))


def fails(plan, env, w, m, s, rows, config):
    """a fit that may be interrupted or run out of memory; -> 'ok' if it was not"""
    go = lambda: worlds.learn(w, model=m, rows=rows)

    def dry():
        n0 = env.ms.ms_allocs()
        with simsched.Tracer(env.prefix, plan['opcodes']) as t:
            try:
                go()
            except Exception:
                pass
        return [t.n, env.ms.ms_allocs() - n0]
    n = env.solo(dry)
    fault = None
    if s['k'] == 'interrupt' and n[0]:
        fault = [1 + int(s['x'] * n[0]), s['exc']]
    t = simsched.Tracer(env.prefix, plan['opcodes'], fault, 8000000)
    try:
        if s['k'] == 'alloc' and n[1]:
            config(1 + int(s['x'] * n[1]))
        with t:
            go()
        how = 'ok'
    except simsched.SimHang:
        raise
    except BaseException as e:
        how = type(e).__name__
    finally:
        failed = env.ms.ms_failed()
        config()
    env.count('steps', t.n)
    if t.fired:
        env.count('fault:' + fault[1])
    if failed:
        env.count('fault:failed allocation')
    return how


def fit(plan, env, w, m, s, rows, variables, i, out):
    if not s['others']:
        try:
            worlds.learn(w, model=m, rows=rows)
        except Exception as e:
            return {'kind': 'error', 'site': type(e).__name__, 'msg': 'step %d: learning fails: %s: %s' % (i, type(e).__name__, str(e)[:300])}
        return None
    explicit = plan.get('preempt') is not None
    sched = simsched.Scheduler(env.prefix, None if explicit else rng_.stream(plan['seed'], 'sched', i), plan['p'],
                               (plan.get('preempt') or {}).get(str(i), []) if explicit else None, plan['opcodes'], 6000000, plan.get('p_store'))
    tasks = [c04.task(k, s['seed'] + j, w, variables if plan['share'] else worlds.make_variables(w), s['x'])
             for j, k in enumerate(s['others'])]

    def body(j):
        env.ms.ms_install()
        with sched.tracer(j):
            if j == 0:
                worlds.learn(w, model=m, rows=rows)
            else:
                try:
                    tasks[j - 1]()
                except Exception:
                    pass
    for _ in range(1 + len(tasks)):
        sched.spawn(body)
    sched.run()
    out.setdefault('preempt', {})[str(i)] = [list(x) for x in sched.taken]
    env.count('fault:preemption', len(sched.taken))
    env.count('steps', sched.step)
    out['sets'].setdefault('switch_points', []).extend('%s:%s' % (p[1], p[2]) for p in sched.points)
    for j, e in sched.errors:
        kind = 'hang' if isinstance(e, simsched.SimHang) else 'deadlock' if isinstance(e, simsched.SimDeadlock) else 'error'
        if kind != 'error' or j == 0:
            return {'kind': kind, 'site': type(e).__name__, 'msg': 'step %d, learner %d: %r' % (i, j, e)}
    return None


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 1)
    for i, s in enumerate(plan['steps']):
        if s.get('others'):
            yield shrinkers._with(plan, ['steps', i, 'others'], [])
    if plan['clock']:
        yield dict(plan, clock=False)
    if plan['mem']:
        yield dict(plan, mem=0)
    for k in sorted(plan.get('preempt') or {}):
        yield from shrinkers.drop_items(plan, ['preempt', k])
    yield from shrinkers.world(plan)
