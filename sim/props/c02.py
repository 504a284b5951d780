"""C02: no history of queries, however it ends, changes the model or the caller's query objects."""
import ops
import rng as rng_
import simsched
import shrinkers
import worlds

RUNS = {'quick': 1000, 'thorough': 60000}
RULE = ('one evaluation = one history of 2-8 queries on one model, each of which may be cut short by an injected '
        'asynchronous exception, compared step by step with the pristine model; non-trivial = at least one fault fired '
        'or one query raised; distinct by (query kind, code location of the fault)')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, scipy'],
    'simulated': ['asynchronous exceptions (KeyboardInterrupt, MemoryError, RecursionError, TimeoutError) at a seeded '
                  'line/byte-code event of jpt', 'state of the global random generators'],
}
ASSUMPTIONS = ['asynchronous exceptions are delivered at line/byte-code boundaries of jpt frames, which is where the '
               'interpreter delivers them']
FAULTS = ['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'RecursionError', 'TimeoutError']
KINDS = ops.QUERY_KINDS + ['sample', 'sample']


def gen(rng, idx):
    w = worlds.gen_world(rng)
    n_ev = rng.randint(1, 4)
    evs = [worlds.gen_evidence(rng, w) for _ in range(n_ev)]
    steps = []
    for _ in range(rng.randint(2, 8)):
        s = {'op': ops.gen_op(rng, w, n_ev, KINDS)}
        if rng.random() < .45:
            s['fault'] = [rng.random(), rng.choice(FAULTS)]
        steps.append(s)
    plan = {'world': w, 'evs': evs, 'steps': steps, 'opcodes': rng.random() < .4,
            'probes': ops.probe_ops(rng, w, n_ev, 4)}
    if rng.random() < .12:     # a sequence model, some of the queries concern sequences
        plan['sequences'] = worlds.gen_sequences(rng, w)
        for s in steps:
            if rng.random() < .6:
                s['op'] = worlds.gen_sequence_op(rng, n_ev)
        plan['probes'].append(worlds.gen_sequence_op(rng, n_ev))
    return plan


def run(plan, env, stage, carry):
    w = plan['world']
    seq = None
    if plan.get('sequences'):
        seq = worlds.build_sequence(plan, env)
        m = seq.template_tree
    else:
        m = env.build(w)
    c = ops.Client(m, w, plan['evs'], env.canon)
    c.seq = seq
    look = lambda: [env.canon(m), None if seq is None else env.canon(seq.to_json())]
    before = look()

    def probe():
        c = ops.Client(m, w, plan['evs'])
        c.seq = seq
        return [ops.outcome(c, p, env.canon) for p in plan['probes']]
    ref = env.solo(probe)
    out = {'sample': {'steps': plan['steps']}, 'sets': {'distinct': []}}
    for i, s in enumerate(plan['steps']):
        op = s['op']
        env.count('op:' + op['k'])
        fault = None
        if s.get('fault'):
            def dry():
                with simsched.Tracer(env.prefix, plan['opcodes']) as t:
                    ops.outcome(c, op, env.canon)
                return t.n
            n = env.solo(dry)
            if n:
                fault = [1 + int(s['fault'][0] * n), s['fault'][1]]
        t = simsched.Tracer(env.prefix, plan['opcodes'], fault, 5000000)
        try:
            with t:
                c.run(op)
            how = 'ok'
        except simsched.SimHang as e:
            out['violation'] = {'kind': 'hang', 'site': op['k'], 'msg': str(e)}
            return out
        except BaseException as e:
            how = type(e).__name__
        env.count('steps', t.n)
        if t.fired:
            env.count('fault:' + fault[1])
            out['sets']['distinct'].append('%s@%s:%s' % (op['k'], t.fired[0], t.fired[1]))
        elif how != 'ok':
            env.count('outcome:' + how)
            out['sets']['distinct'].append('%s!%s' % (op['k'], how))
        env.event(i, op['k'], how, t.n, t.fired)
        d = env.canon_diff(before, look(), 0)
        if d:
            out['violation'] = {'kind': 'state', 'site': op['k'],
                                'msg': 'model before vs after step %d (%s, %s): %s' % (i, op['k'], t.fired or how, d)}
            return out
        d = c.tampered(env.canon_diff)
        if d:
            out['violation'] = {'kind': 'input', 'site': op['k'],
                                'msg': 'query object before vs after step %d (%s, %s): %s' % (i, op['k'], t.fired or how, d)}
            return out
    got = probe()
    env.event(got)
    for p, a, b in zip(plan['probes'], ref, got):
        env.count('probe:' + p['k'])
        d = env.canon_diff(a, b)
        if d:
            out['violation'] = {'kind': 'answer', 'site': p['k'],
                                'msg': '%s on the pristine model vs after the history: %s' % (p['k'], d)}
            return out
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'])
    for i, s in enumerate(plan['steps']):
        if s.get('fault'):
            yield shrinkers._with(plan, ['steps', i], {'op': s['op']})
    yield from shrinkers.drop_items(plan, ['probes'])
    yield from shrinkers.world(plan)
    yield from shrinkers.evidences(plan)
