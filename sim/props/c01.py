"""C01: queries running concurrently on one model each answer as they would alone."""
import random

import ops
import rng as rng_
import simsched
import shrinkers
import worlds

RUNS = {'quick': 900, 'thorough': 40000}
LEVEL = 'exploration'
RULE = ('one evaluation = one simulated execution of 2-4 client threads on one shared model; non-trivial = at least '
        'one switch happened while another client was inside the package; distinct by the set of '
        '(client, code location, next client) switch points')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, scipy', 'CPython threads'],
    'simulated': ['thread scheduler: exactly one thread runnable, switches at line/byte-code events of jpt, chosen by the seed',
                  'locks created after start-up (parked in the simulated scheduler)'],
}
ASSUMPTIONS = ['compiled parts of jpt hold the interpreter lock throughout (no nogil section in the sources), so '
               'byte-code boundaries of jpt frames are the places where the interpreter can switch']


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([8, 15, 25, 40]))
    n_ev = rng.randint(1, 4)
    evs = [worlds.gen_evidence(rng, w) for _ in range(n_ev)]
    if rng.random() < .4:      # contention: everybody does the same kind of thing
        kinds = [rng.choice(ops.QUERY_KINDS) for _ in range(rng.choice([1, 2]))]
    else:
        kinds = None
    clients = [[ops.gen_op(rng, w, n_ev, kinds) for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([2, 2, 3, 4]))]
    if rng.random() < .15:
        clients = [clients[0]] * len(clients)
    plan = {'world': w, 'evs': evs, 'clients': clients, 'shared': rng.random() < .4,
            **worlds.gen_schedule(rng),
            'preempt': None, 'seed': rng.getrandbits(32)}
    if rng.random() < .12:     # a sequence model, some of the queries concern sequences
        plan['sequences'] = worlds.gen_sequences(rng, w)
        for c in clients:
            for k in range(len(c)):
                if rng.random() < .6:
                    c[k] = worlds.gen_sequence_op(rng, n_ev)
    return plan


def run(plan, env, stage, carry):
    w = plan['world']
    seq = None
    if plan.get('sequences'):
        seq = worlds.build_sequence(plan, env)
        m = seq.template_tree
    else:
        m = env.build(w)
    n = len(plan['clients'])
    if plan['shared']:
        cl = ops.Client(m, w, plan['evs'])
        clients = [cl] * n
    else:
        clients = [ops.Client(m, w, plan['evs']) for _ in range(n)]
    for c in clients:
        c.seq = seq
    before = env.solo(lambda: env.canon(m))     # not here: the model has to be cold, nothing derived on demand yet

    def alone(i):
        def go():
            return [env.solo(lambda op=op: ops.outcome(clients[i], op, env.canon)) for op in plan['clients'][i]]
        return go
    ref = [alone(i)() for i in range(n)]
    explicit = plan.get('preempt') is not None
    s = simsched.Scheduler(
        env.prefix, None if explicit else rng_.stream(plan['seed'], 'sched'), plan['p'],
        plan.get('preempt'), plan['opcodes'], 3000000, plan.get('p_store'))
    got = [[] for _ in range(n)]

    def body(i):
        with s.tracer(i):
            for op in plan['clients'][i]:
                got[i].append(ops.outcome(clients[i], op, env.canon))
    for _ in range(n):
        s.spawn(body)
    s.run()
    env.count('steps', s.step)
    env.count('fault:preemption', len(s.taken))
    for c in plan['clients']:
        for op in c:
            env.count('op:' + op['k'])
    env.event('taken', s.taken[:2000], s.step)
    env.event('got', got)
    plan['preempt'] = [list(x) for x in s.taken]
    out = {'sample': {'ops': plan['clients'], 'switches': s.taken[:12], 'events': s.step},
           'sets': {'switch_points': ['%s:%s' % (p[1], p[2]) for p in s.points]}}
    if s.taken:
        out['sets']['distinct'] = [rng_.derive(repr(sorted(map(str, s.points))))]
    for i, e in s.errors:
        if isinstance(e, simsched.SimHang):
            kind = 'hang'
        elif isinstance(e, simsched.SimDeadlock):
            kind = 'deadlock'
        else:
            kind = 'escaped'
        out['violation'] = {'kind': kind, 'msg': 'client %d: %r' % (i, e), 'site': None}
        return out
    for i in range(n):
        for k, op in enumerate(plan['clients'][i]):
            d = env.canon_diff(ref[i][k], got[i][k])
            if d:
                out['violation'] = {'kind': 'answer', 'site': op['k'],
                                    'msg': 'client %d, operation %d (%s) alone vs concurrent: %s' % (i, k, op['k'], d)}
                return out
    d = env.canon_diff(before, env.canon(m))
    if d:
        out['violation'] = {'kind': 'state', 'site': None, 'msg': 'model before vs after: %s' % d}
    return out


def shrink(plan):
    if len(plan['clients']) > 2:
        for i in range(len(plan['clients'])):
            p = shrinkers._with(plan, ['clients'], plan['clients'][:i] + plan['clients'][i + 1:])
            p['preempt'] = None
            yield p
    for i in range(len(plan['clients'])):
        for cand in shrinkers.drop_items(plan, ['clients', i], 1):
            yield cand
    if plan.get('preempt'):
        yield from shrinkers.drop_items(plan, ['preempt'])
    for cand in shrinkers.world(plan):
        yield cand
    for cand in shrinkers.evidences(plan):
        yield cand
