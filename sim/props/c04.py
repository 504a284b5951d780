"""C04: learning is a function of the data and the settings alone."""
import random

import ops
import rng as rng_
import simsched
import shrinkers
import worlds

RUNS = {'quick': 900, 'thorough': 50000}
STAGES = 2
RULE = ('one evaluation = one learning task executed twice: alone in a quiet process, and in another process with a '
        'different hash seed and memory layout, garbage in fresh memory, a jumping clock, other states of the random '
        'generators, after other work of that process and possibly while other threads learn or query; non-trivial = '
        'the second execution had at least one disturbance that took effect (garbage-filled allocations, clock readings, '
        'earlier work, switches); distinct by (kinds of disturbance, lanes, earlier work, size of the learned tree)')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, scipy', 'CPython threads'],
    'simulated': ['content of fresh and freed array memory', 'hash seed and address layout of the process (8 fixed variants)',
                  'clock', 'random generators', 'thread scheduler'],
}
ASSUMPTIONS = ['memory obtained by numpy for arrays is filled by the simulator; other memory of malloc is filled with a '
               'fixed byte that differs between the processes']


def gen(rng, idx):
    w = worlds.gen_world(rng, derive_ok=False)
    prior = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.choice(['learn', 'learn', 'same', 'samevars', 'query', 'fail', 'interrupt', 'relearn'])
        p = {'k': k, 'seed': rng.getrandbits(32), 'x': rng.random()}
        prior.append(p)
    others = []
    if rng.random() < .35:
        for _ in range(rng.choice([1, 1, 2])):
            others.append(rng.choice(['learn', 'same', 'samevars', 'query']))
    return {'world': w, 'prior': prior, 'others': others, 'mem': [rng.choice([0, 0, 1, 3]), rng.choice([1, 2, 2, 3, 3, 4, 5])],
            'fill': [0, rng.choice([0xff, 0x7f, 1])], 'clock': rng.random() < .5, 'rng': rng.getrandbits(31),
            **worlds.gen_schedule(rng), 'preempt': None,
            'seed': rng.getrandbits(32), 'evs': [worlds.gen_evidence(rng, w, form='dict')], 'probes': ops.probe_ops(rng, w, 1, 3), 'share': rng.random() < .5}


def observe(m, plan, env):
    c = ops.Client(m, plan['world'], plan['evs'])
    return [env.canon(m), [ops.outcome(c, p, env.canon) for p in plan['probes']]]


def task(k, seed, w, variables, x=0.):
    """other work in the same process; -> function"""
    r = rng_.stream(seed, k)
    if k == 'same':
        return lambda: worlds.learn(w)
    if k in ('samevars', 'relearn'):
        rows = [r.choice(w['rows']) for _ in range(max(3, len(w['rows']) // 2))]
        rows[:2] = [w['rows'][0], w['rows'][-1]]
        return lambda: worlds.learn(w, variables=variables, rows=rows)
    other = worlds.gen_world(r, n=r.choice([8, 20]), derive_ok=False)
    if k == 'query':
        def go():
            m = worlds.learn(other)
            evs = [worlds.gen_evidence(r, other) for _ in range(2)]
            c = ops.Client(m, other, evs)
            for _ in range(4):
                op = ops.gen_op(r, other, 2)
                try:
                    c.run(op)
                except Exception:
                    pass
        return go
    if k == 'fail':
        def go():
            try:
                worlds.unlearned(w, variables).learn(rows=[['no such value'] * len(w['cols'])])
            except Exception:
                pass
        return go
    return lambda: worlds.learn(other)


def run(plan, env, stage, carry):
    import numpy as np
    w = plan['world']
    variables = worlds.make_variables(w)
    mode = plan['mem'][stage]
    env.ms.ms_install()
    env.ms.ms_config(mode, plan['seed'] & 0xffffffff, plan['fill'][stage], -1, 0)
    if stage == 0:
        try:
            m = worlds.learn(w, variables)
            res = observe(m, plan, env)
            res.append(len(m.allnodes))
        except Exception as e:
            raise env.Skip('no model: %s: %s' % (type(e).__name__, e))
        env.count('steps', 1)
        env.event(res)
        return {'carry': res, 'sample': {'hyper': w['hyper'], 'cols': w['cols'], 'rows': len(w['rows']),
                                         'prior': plan['prior'], 'others': plan['others'], 'mem': plan['mem']}}
    np.random.seed(plan['rng'])
    random.seed(plan['rng'])
    if plan['clock'] and env.fs is not None:
        env.fs.ck_arm(plan['seed'], 1700000000000000000)
    model = None
    done = []
    for p in plan['prior']:
        t = task(p['k'], p['seed'], w, variables, p['x'])
        if p['k'] == 'interrupt':
            # learning with these very variables and this object is cut short
            model = worlds.unlearned(w, variables) if model is None else model
            n = 400 + int(p['x'] * 4000)
            tr = simsched.Tracer(env.prefix, False, [n, 'KeyboardInterrupt'])
            try:
                with tr:
                    worlds.learn(w, model=model)
            except KeyboardInterrupt:
                env.count('fault:interrupted earlier learning')
            except Exception:
                pass
        elif p['k'] == 'relearn':
            try:
                model = t()
            except Exception:
                model = None
        else:
            try:
                t()
            except Exception:
                pass
        env.count('fault:earlier work')
        done.append(p['k'])
    if model is None:
        model = worlds.unlearned(w, variables)
    fill0 = env.ms.ms_filled()
    explicit = plan.get('preempt') is not None
    s = None
    out = {'sets': {}}
    if plan['others']:
        got = []
        s = simsched.Scheduler(env.prefix, None if explicit else rng_.stream(plan['seed'], 'sched'), plan['p'],
                               plan.get('preempt'), plan['opcodes'], 6000000, plan.get('p_store'))
        tasks = [task(k, plan['seed'] + i, w, variables if plan['share'] else worlds.make_variables(w))
                 for i, k in enumerate(plan['others'])]

        def body(i):
            env.ms.ms_install()          # the allocator of numpy is a property of the context
            with s.tracer(i):
                if i == 0:
                    worlds.learn(w, model=model)
                    got.append(1)
                else:
                    try:
                        tasks[i - 1]()
                    except Exception:
                        pass
        for _ in range(1 + len(tasks)):
            s.spawn(body)
        s.run()
        plan['preempt'] = [list(x) for x in s.taken]
        env.count('fault:preemption', len(s.taken))
        env.count('steps', s.step)
        out['sets']['switch_points'] = ['%s:%s' % (p[1], p[2]) for p in s.points]
        for i, e in s.errors:
            kind = 'hang' if isinstance(e, simsched.SimHang) else 'deadlock' if isinstance(e, simsched.SimDeadlock) else 'error'
            if kind != 'error' or i == 0:
                env.fs.ck_disarm()
                out['violation'] = {'kind': kind, 'site': None, 'msg': 'learner %d: %r' % (i, e)}
                return out
    else:
        try:
            worlds.learn(w, model=model)
        except Exception as e:
            env.fs.ck_disarm()
            out['violation'] = {'kind': 'error', 'site': None,
                                'msg': 'learning fails in the second process: %s: %s' % (type(e).__name__, e)}
            return out
        env.count('steps', 1)
    filled = env.ms.ms_filled() - fill0
    env.count('fault:garbage-filled allocations', filled)
    reads = 0
    if plan['clock'] and env.fs is not None:
        reads = env.fs.ck_reads()
        env.fs.ck_disarm()
        env.count('fault:clock readings', reads)
    env.count('fault:other process layout')
    res = observe(model, plan, env)
    env.event(res, s and s.taken[:500])
    d = env.canon_diff(carry[:2], res)
    out['sets']['distinct'] = [repr((sorted(done), plan['others'], mode if filled else 0, bool(reads), env.lane, carry[2]))]
    if d:
        out['violation'] = {'kind': 'model', 'site': None, 'msg': 'quiet process vs disturbed process: %s' % d}
    return out


def shrink(plan):
    if plan['others']:
        yield dict(plan, others=[], preempt=None)
        if len(plan['others']) > 1:
            yield dict(plan, others=plan['others'][:1], preempt=None)
    yield from shrinkers.drop_items(plan, ['prior'])
    if plan['clock']:
        yield dict(plan, clock=False)
    if plan['mem'][1]:
        yield dict(plan, mem=[plan['mem'][0], 0])
    if plan['mem'][0]:
        yield dict(plan, mem=[0, plan['mem'][1]])
    if plan.get('preempt'):
        yield from shrinkers.drop_items(plan, ['preempt'])
    yield from shrinkers.world(plan)
