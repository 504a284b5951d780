"""C06: what was saved loads as the same thing in any other process."""
import base64
import io
import json
import os
import pickle

import ops
import rng as rng_
import shrinkers
import worlds

RUNS = {'quick': 1200, 'thorough': 60000}
STAGES = 2
RULE = ('one evaluation = one model (or its variables, intervals and evidence) saved in one process and loaded in another '
        'one with a different hash seed, memory layout, locale and history, over a disk that splits up and interrupts '
        'reads and writes, followed by further generations of saving and loading; non-trivial = the two processes differ; '
        'distinct by (lanes, protocol, target, fragmentation, generations, how the model was derived, size)')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, scipy, pickle, json, bz2', 'CPython I/O stack'],
    'simulated': ['disk: every read and write may transfer less than asked for or be interrupted by a signal',
                  'hash seed, address layout, locale and malloc fill of the processes (8 fixed variants)'],
}
ASSUMPTIONS = []
KINDS = ['infer', 'posterior', 'expectation', 'mpe', 'kmpe', 'cond', 'pdf', 'likelihood', 'encode', 'apply', 'moment', 'show',
         'hyper', 'prune', 'leafmpe', 'leafp']


def gen(rng, idx):
    w = worlds.gen_world(rng)
    n_ev = rng.randint(1, 3)
    return {'world': w, 'evs': [worlds.gen_evidence(rng, w) for _ in range(n_ev)],
            'probes': [ops.gen_op(rng, w, n_ev, KINDS) for _ in range(rng.randint(2, 6))],
            'protocol': rng.choice(['pickle', 'json']),
            'how': [rng.choice(['path', 'path', 'stream', 'handle', 'method', 'dumps']) for _ in range(2)],
            'chop': [rng.choice([0, 1, 7, 100, 511]) for _ in range(2)],
            'eintr': [rng.choice([0, 0, 2, 3]) for _ in range(2)],
            'gens': [[rng.choice(['pickle', 'json']), rng.choice(['path', 'stream', 'handle', 'dumps'])]
                     for _ in range(rng.choice([0, 1, 1, 2, 4]))],
            'clash': rng.random() < .3, 'relearn': rng.random() < .4, 'seed': rng.getrandbits(32)}


def save(m, protocol, how, d, name='model'):
    """-> the bytes that were stored"""
    path = os.path.join(d, name)
    if how == 'path':
        m.save(path, protocol=protocol)
    elif how == 'method' and protocol == 'pickle':
        m.pickle(path)
    elif how == 'handle':
        with open(path, 'w' if protocol == 'json' else 'wb') as f:
            m.save(f, protocol=protocol)
    elif how == 'dumps':
        return pickle.dumps(m) if protocol == 'pickle' else json.dumps(m.to_json()).encode()
    else:
        f = io.StringIO() if protocol == 'json' else io.BytesIO()
        m.save(f, protocol=protocol)
        f = f.getvalue()
        return f.encode() if protocol == 'json' else f
    with open(path, 'rb') as f:
        return f.read()


def load(cls, data, protocol, how, d, name='stored'):
    path = os.path.join(d, name)
    if how in ('path', 'handle', 'method'):
        with open(path, 'wb') as f:
            f.write(data)
    if how in ('path', 'method'):
        return cls.load(path, protocol=protocol)
    if how == 'handle':
        with open(path, 'r' if protocol == 'json' else 'rb') as f:
            return cls.load(f, protocol=protocol)
    if how == 'dumps':
        return pickle.loads(data) if protocol == 'pickle' else cls.from_json(json.loads(data))
    return cls.load(io.StringIO(data.decode()) if protocol == 'json' else io.BytesIO(data), protocol=protocol)


def observe(m, plan, env):
    c = ops.Client(m, plan['world'], plan['evs'])
    return [env.canon(m), env.canon(list(m.variables)),
            [ops.outcome(c, p, env.canon) for p in plan['probes']]]


def relearn(m, plan, env):
    return env.canon(worlds.learn(plan['world'], model=m))


def things(m, plan):
    """what else can be stored: -> [(name, object, protocol)]"""
    from jpt.base.intervals import ContinuousSet, RealSet
    res = []
    for i, e in enumerate(plan['evs']):
        for form in ('label', 'value'):
            try:
                x = worlds.evidence(m, dict(e, form=form))
            except Exception:
                continue
            res.append(('evidence %s' % form, x, 'pickle'))
            if form == 'label':
                res.append(('evidence', x, 'json'))
            for v in x.values():
                if isinstance(v, (ContinuousSet, RealSet)):
                    res += [(type(v).__name__, v, 'pickle'), (type(v).__name__, v, 'json')]
    for v in m.variables:
        res += [('variable', v, 'pickle'), ('variable', v, 'json')]
    res.append(('variables', list(m.variables), 'pickle'))
    return res


def run(plan, env, stage, carry):
    from jpt.trees import JPT
    from jpt.variables import Variable
    w = plan['world']
    d = os.path.join(os.environ['JPT_SIM_SCRATCH'], 'c06-%d' % stage)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    proto = plan['protocol']
    env.fs.fs_clear()
    env.fs.fs_knobs(plan['chop'][stage], plan['eintr'][stage], -1)
    if stage == 0:
        m = env.build(w)
        obs = observe(m, plan, env)
        env.fs.fs_arm(d.encode())
        try:
            data = save(m, proto, plan['how'][0], d)
        except Exception as e:
            return {'violation': {'kind': 'save', 'site': None, 'msg': 'saving fails: %s: %s' % (type(e).__name__, e)}}
        finally:
            env.fs.fs_disarm()
        stuff = []
        for name, x, p in things(m, plan):
            try:
                stuff.append([name, p, base64.b64encode(pickle.dumps(x) if p == 'pickle' else json.dumps(x.to_json()).encode()).decode(),
                              env.canon(x), type(x).__name__])
            except Exception as e:
                return {'violation': {'kind': 'save', 'site': name,
                                      'msg': 'saving %s fails: %s: %s' % (name, type(e).__name__, e)}}
        env.count('fault:fragmented writes', env.fs.fs_ops() if plan['chop'][0] else 0)
        env.count('steps', env.fs.fs_ops())
        env.event(obs)
        ref = env.fork(lambda: relearn(m, plan, env)) if plan['relearn'] else None
        return {'carry': [base64.b64encode(data).decode(), obs, stuff, ref, len(m.allnodes), env.lane],
                'sample': {'protocol': proto, 'how': plan['how'], 'chop': plan['chop'], 'gens': plan['gens'],
                           'cols': w['cols'], 'derive': w['derive']}}
    data, ref, stuff, again, size, lane0 = carry
    data = base64.b64decode(data)
    keep = []
    if plan['clash']:
        # this process knows other domains and variables of the same names
        w2 = dict(w, cols=[dict(c) for c in w['cols']], rows=[list(r) for r in w['rows']], derive=[])
        w2.pop('infer', None)
        for i, c in enumerate(w2['cols']):
            if c['kind'] in ('num', 'snum'):
                for r in w2['rows']:
                    r[i] = r[i] * 3 + 100
            elif c['kind'] == 'sym':
                c['labels'] = ['other'] + list(c['labels'])[::-1]
            elif c['kind'] == 'int':
                c['lmin'] -= 2
        try:
            keep.append(worlds.learn(w2))
        except Exception:
            pass
        env.count('fault:domains of the same names in the process')
    out = {'sets': {'distinct': [repr((lane0, env.lane, proto, plan['how'], plan['chop'], len(plan['gens']),
                                       [s['op'] for s in w['derive']], size))]}}
    env.fs.fs_arm(d.encode())
    n_ops = 0
    try:
        m = load(JPT, data, proto, plan['how'][1], d)
        models = [(0, m)]
        for g, (p, how) in enumerate(plan['gens']):
            models.append((g + 1, load(JPT, save(models[-1][1], p, how, d, 'g%d' % g), p, how, d, 'h%d' % g)))
    except Exception as e:
        env.fs.fs_disarm()
        out['violation'] = {'kind': 'load', 'site': None, 'msg': 'loading fails: %s: %s' % (type(e).__name__, e)}
        return out
    finally:
        n_ops = env.fs.fs_ops()
        env.fs.fs_disarm()
    env.count('steps', n_ops)
    env.count('fault:other process')
    if plan['chop'][1]:
        env.count('fault:fragmented reads and writes', n_ops)
    if plan['eintr'][1]:
        env.count('fault:interrupted system calls', n_ops // plan['eintr'][1])
    for g, m in models[-2:] if len(models) > 1 else models:
        got = observe(m, plan, env)
        env.event(g, got)
        diff = env.canon_diff(ref[:2], got[:2])
        if diff:
            out['violation'] = {'kind': 'model', 'site': None, 'msg': 'saved vs loaded model (generation %d): %s' % (g, diff)}
            return out
        for p, a, b in zip(plan['probes'], ref[2], got[2]):
            env.count('probe:' + p['k'])
            diff = env.canon_diff(a, b)
            if diff:
                out['violation'] = {'kind': 'answer', 'site': p['k'],
                                    'msg': '%s of the saved vs the loaded model (generation %d): %s' % (p['k'], g, diff)}
                return out
    by = {v.name: v for v in m.variables}
    for name, p, blob, want, typ in stuff:
        env.count('op:thing ' + name)
        blob = base64.b64decode(blob)
        try:
            if p == 'pickle':
                x = pickle.loads(blob)
            elif name == 'evidence':
                from jpt.variables import LabelAssignment
                x = LabelAssignment.from_json(list(m.variables), json.loads(blob))
            elif name == 'variable':
                x = Variable.from_json(json.loads(blob))
            else:
                from jpt.base import intervals
                x = getattr(intervals, typ).from_json(json.loads(blob))
        except Exception as e:
            out['violation'] = {'kind': 'load', 'site': name, 'msg': 'loading %s fails: %s: %s' % (name, type(e).__name__, e)}
            return out
        diff = env.canon_diff(want, env.canon(x))
        if diff:
            out['violation'] = {'kind': 'thing', 'site': name, 'msg': 'saved vs loaded %s (%s): %s' % (name, p, diff)}
            return out
    if again is not None and again[0] == 'ok':
        try:
            diff = env.canon_diff(again[1], relearn(m, plan, env))
        except Exception as e:
            diff = '%s: %s' % (type(e).__name__, e)
        if diff:
            out['violation'] = {'kind': 'relearn', 'site': None, 'msg': 'learning with the saved vs the loaded model: %s' % diff}
            return out
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['gens'])
    yield from shrinkers.drop_items(plan, ['probes'])
    for k in ('clash', 'relearn'):
        if plan[k]:
            yield dict(plan, **{k: False})
    if any(plan['chop']):
        yield dict(plan, chop=[0, 0])
    if any(plan['eintr']):
        yield dict(plan, eintr=[0, 0])
    yield from shrinkers.world(plan)
    yield from shrinkers.evidences(plan)
