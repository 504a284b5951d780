"""C03: models and distributions derived from a model are independent of it, in both directions."""
import io

import ops
import rng as rng_
import simsched
import shrinkers
import worlds

RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('one evaluation = one (source, derived object, side that is changed in place, change, fault, schedule) case; '
        'non-trivial = the change really altered the side it was applied to, or a fault cut it short; distinct by '
        '(derivation, side, changes, fault location, concurrent or not)')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, scipy', 'CPython threads'],
    'simulated': ['thread scheduler', 'asynchronous exceptions inside the in-place change'],
}
ASSUMPTIONS = ['in-place changes are those the library offers (learn, multiply_by_leaf_prior, normalize, '
               'postprocess_leaves, Distribution.set/update/fit/item assignment/insert_convex_fragments), leaf priors and '
               'the contents of returned results; privately shared immutable structure is not judged']
MODEL_DERIV = ['copy', 'cond', 'cond', 'prune', 'pickle', 'json', 'sibling', 'cond_none', 'getstate']
DIST_DERIV = ['posterior', 'leafcopy', 'condleaf', 'distcopy', 'distcrop', 'mpe', 'expectation', 'tojson', 'merge', 'kmpe',
              'priors', 'settings', 'dirac']
MODEL_CHANGES = ['relearn', 'relearn', 'badlearn', 'multiply', 'badmultiply', 'normalize', 'postprocess', 'dist', 'dist',
                 'dist', 'prior', 'clear']


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([8, 15, 25, 40]))
    evs = [worlds.gen_evidence(rng, w) for _ in range(2)]
    model = rng.random() < .6
    kind = rng.choice(MODEL_DERIV if model else DIST_DERIV)
    names = [c['name'] for c in w['cols']]
    var = rng.choice(names)
    side = rng.choice(['derived', 'source']) if model else rng.choice(['derived', 'derived', 'source'])
    changes = []
    for _ in range(rng.randint(1, 3)):
        changes.append({
            'k': rng.choice(MODEL_CHANGES) if model or side == 'source' else 'obj',
            'v': rng.choice(names), 'l': rng.randrange(99), 'f': rng.choice(['set', 'update', 'fit', 'item', 'gap', 'dirac']),
            'x': rng.random(), 'n': rng.randint(2, 6),
            'fault': [rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError'])] if rng.random() < .2 else None,
        })
    return {'world': w, 'evs': evs, 'kind': kind, 'model': model, 'side': side, 'var': var, 'leaf': rng.randrange(99),
            'value': worlds.gen_value(rng, w, names.index(var)), 'th': rng.choice([.1, .5]),
            'changes': changes, 'probes': ops.probe_ops(rng, w, 2, 4),
            'concurrent': model and rng.random() < .3, **worlds.gen_schedule(rng),
            'preempt': None, 'seed': rng.getrandbits(32)}


def derive(m, plan, w):
    k = plan['kind']
    ev = worlds.evidence(m, plan['evs'][0])
    leaf = m.leaves[sorted(m.leaves)[plan['leaf'] % len(m.leaves)]]
    var = m.varnames[plan['var']]
    if k == 'copy':
        return m.copy()
    if k == 'cond':
        return m.conditional_jpt(ev)
    if k == 'cond_none':
        return m.conditional_jpt()
    if k == 'prune':
        return m.prune(plan['th'])
    if k in ('pickle', 'json'):
        f = io.StringIO() if k == 'json' else io.BytesIO()
        m.save(f, protocol=k)
        f.seek(0)
        return type(m).load(f, protocol=k)
    if k == 'getstate':
        import copy
        return copy.deepcopy(m)
    if k == 'sibling':
        return worlds.learn(w, variables=list(m.variables), rows=w['rows'][::2] + w['rows'][:1])
    if k == 'posterior':
        return m.posterior(None, ev)
    if k == 'priors':
        return m.posterior([plan['var']])
    if k == 'leafcopy':
        return leaf.copy()
    if k == 'condleaf':
        return leaf.conditional_leaf(m.bind(worlds.evidence(m, dict(plan['evs'][0], form='dict'))))
    if k == 'distcopy':
        return leaf.distributions[var].copy()
    if k == 'dirac':
        d = leaf.distributions[var]
        return d.crop(w['rows'][0][[c['name'] for c in w['cols']].index(plan['var'])])
    if k == 'distcrop':
        x = worlds.value(plan['value'])
        if isinstance(x, list):
            from jpt.base.intervals import ContinuousSet
            x = ContinuousSet(*x)
        return leaf.distributions[var].crop(x)
    if k == 'mpe':
        return m.mpe(ev)
    if k == 'kmpe':
        import itertools
        return list(itertools.islice(m.kmpe(ev), 3))
    if k == 'expectation':
        return m.expectation(None, ev)
    if k == 'tojson':
        return m.to_json()
    if k == 'settings':
        return m.get_hyperparameters_dict()
    if k == 'merge':
        ls = [m.leaves[i] for i in sorted(m.leaves)][:2]
        return var.domain.merge([l.distributions[var] for l in ls], [1. / len(ls)] * len(ls))
    raise ValueError(k)


def change_dist(d, ch, w):
    """change one distribution in place by what it offers for that"""
    import numpy as np
    from jpt.base.intervals import ContinuousSet
    f = ch['f']
    other = type(d).from_json(d.to_json())
    if hasattr(d, '_quantile'):
        lo, hi = d.cdf.intervals[0].upper, d.cdf.intervals[-1].lower
        if f in ('set', 'fit', 'item'):
            d.fit(np.array([[lo - 1.], [hi + ch['x']], [hi + 2.]]), None, 0)
        elif f == 'update':
            other.fit(np.array([[lo - 1.], [hi + ch['x']], [hi + 2.]]), None, 0)
            d.update(other, .5)
        elif f == 'dirac':
            d.create_dirac_impulse(hi + 3.)
        else:
            d.insert_convex_fragments(ContinuousSet(lo - 2, lo), ContinuousSet(hi, hi + 1), 10)
        return
    n = len(d.probabilities)
    p = np.arange(1., n + 1)
    p /= p.sum()
    if f in ('set', 'gap', 'dirac') or f == 'item' and not hasattr(type(d), '__setitem__'):
        d.set(p)
    elif f == 'item':
        d[list(d.labels.values())[0]] = ch['x']
    elif f == 'update':
        d.update(other.set(p), .5)
    else:
        d._fit(np.array([[0.], [n - 1.], [n - 1.]]), None, 0)


def change_model(m, ch, w):
    k = ch['k']
    if not m.leaves:
        return
    leaf = m.leaves[sorted(m.leaves)[ch['l'] % len(m.leaves)]]
    if k == 'relearn':
        worlds.learn(w, model=m, rows=w['rows'][:1] + w['rows'][len(w['rows']) // 2:])
    elif k == 'badlearn':
        rows = [list(r) for r in w['rows']]
        i = [c['kind'] for c in w['cols']].index('sym') if 'sym' in [c['kind'] for c in w['cols']] else 0
        rows[-1][i] = '~unseen~'
        m.learn(rows=rows)
    elif k == 'multiply':
        m.multiply_by_leaf_prior({i: 1. + j for j, i in enumerate(m.leaves)})
    elif k == 'badmultiply':
        m.multiply_by_leaf_prior({i: 1. + j for j, i in enumerate(list(m.leaves)[:-1])})
    elif k == 'normalize':
        leaf.prior = leaf.prior * 2
        m.normalize()
    elif k == 'postprocess':
        m.postprocess_leaves()
    elif k == 'dist':
        change_dist(leaf.distributions[m.varnames[ch['v']]], ch, w)
        if ch['n'] % 2:
            change_dist(m.priors[m.varnames[ch['v']]], ch, w)
    elif k == 'prior':
        leaf.prior = ch['x']
    elif k == 'clear':
        from jpt.variables import VariableMap
        leaf.distributions = VariableMap()
        m.leaves.clear()


def change_obj(o, ch, w, depth=0):
    """overwrite the contents of something that was returned"""
    import numpy as np
    from jpt.base.intervals import ContinuousSet, RealSet
    from jpt.distributions.univariate.distribution import Distribution
    from jpt.trees import Leaf
    from jpt.variables import VariableMap
    if depth > 12:
        return
    if isinstance(o, Leaf):
        o.prior = .123
        change_obj(o.distributions, ch, w, depth + 1)
    elif isinstance(o, VariableMap):
        for _, v in list(o.items()):
            change_obj(v, ch, w, depth + 1)
        for v in list(o.keys())[:1]:
            del o[v]
    elif isinstance(o, Distribution):
        change_dist(o, ch, w)
    elif isinstance(o, ContinuousSet):
        o.lower, o.upper = -77., -76.
    elif isinstance(o, RealSet):
        for i in o.intervals:
            change_obj(i, ch, w, depth + 1)
    elif isinstance(o, dict):
        for v in list(o.values()):
            change_obj(v, ch, w, depth + 1)
        o.clear()
    elif isinstance(o, (list, tuple)):
        for v in o:
            change_obj(v, ch, w, depth + 1)
        if isinstance(o, list):
            o.clear()
    elif isinstance(o, set):
        o.clear()
    elif isinstance(o, np.ndarray) and o.flags.writeable:
        o[...] = 0


def run(plan, env, stage, carry):
    w = plan['world']
    m = env.build(w)
    from jpt.trees import JPT
    try:
        d = derive(m, plan, w)
    except Exception as e:
        env.count('underivable')
        return {}
    if d is None:
        return {}
    env.count('op:' + plan['kind'])
    src_side = plan['side'] == 'source'
    changed, kept = (m, d) if src_side else (d, m)
    view = env.canon
    k0, c0 = view(kept), view(changed)
    probe = lambda: [ops.outcome(ops.Client(kept, w, plan['evs']), p, env.canon) for p in plan['probes']] \
        if isinstance(kept, JPT) else []
    ref = env.solo(probe)
    apply = change_model if isinstance(changed, JPT) else change_obj
    fired = []
    got = None

    def all_changes(tracer):
        for ch in plan['changes']:
            env.count('change:' + ch['k'])
            with tracer(ch) as t:
                try:
                    apply(changed, ch, w)
                except simsched.SimHang:
                    raise
                except BaseException as e:
                    env.count('outcome:' + type(e).__name__)
            if t.fired:
                env.count('fault:' + ch['fault'][1])
                fired.append('%s:%s' % t.fired[:2])

    out = {'sample': {'derivation': plan['kind'], 'side': plan['side'], 'changes': plan['changes']}, 'sets': {}}
    if plan['concurrent'] and isinstance(kept, JPT):
        explicit = plan.get('preempt') is not None
        s = simsched.Scheduler(env.prefix, None if explicit else rng_.stream(plan['seed'], 'sched'), plan['p'],
                               plan.get('preempt'), plan['opcodes'], 3000000, plan.get('p_store'))
        res = []
        s.spawn(lambda i: all_changes(lambda ch: s.tracer(i)))

        def ask(i):
            with s.tracer(i):
                for p in plan['probes']:
                    res.append(ops.outcome(ops.Client(kept, w, plan['evs']), p, env.canon))
        s.spawn(ask)
        s.run()
        env.count('steps', s.step)
        env.count('fault:preemption', len(s.taken))
        plan['preempt'] = [list(x) for x in s.taken]
        env.event(s.taken[:500], s.step)
        for i, e in s.errors:
            out['violation'] = {'kind': 'hang' if isinstance(e, simsched.SimHang) else 'escaped', 'site': None, 'msg': repr(e)}
            return out
        runs = [res]
    else:
        def tracer(ch):
            fault = None
            if ch['fault']:
                def dry():
                    with simsched.Tracer(env.prefix, plan['opcodes']) as t:
                        try:
                            apply(changed, ch, w)
                        except BaseException:
                            pass
                    return t.n
                n = env.solo(dry)
                fault = [1 + int(ch['fault'][0] * n), ch['fault'][1]] if n else None
            return simsched.Tracer(env.prefix, plan['opcodes'], fault, 5000000)
        all_changes(tracer)
        runs = []
    # what the change did to its own side is not judged here, only that the case is not void
    try:
        altered = env.canon_diff(c0, view(changed)) is not None
    except Exception:
        altered = True
    if altered or fired:
        out['sets']['distinct'] = ['/'.join([plan['kind'], plan['side'], ','.join(c['k'] + (c['f'] if c['k'] in ('dist', 'obj') else '') for c in plan['changes']),
                                             ','.join(fired), str(plan['concurrent'])])]
    x = env.canon_diff(k0, view(kept), 0)
    if x:
        out['violation'] = {'kind': 'state', 'site': plan['kind'] + '/' + plan['side'],
                            'msg': '%s of the model; %s changed; the other side: %s' % (plan['kind'], plan['side'], x)}
        return out
    runs.append(probe())
    env.event(runs)
    for got in runs:
        for p, a, b in zip(plan['probes'], ref, got):
            env.count('probe:' + p['k'])
            x = env.canon_diff(a, b)
            if x:
                out['violation'] = {'kind': 'answer', 'site': plan['kind'] + '/' + plan['side'],
                                    'msg': '%s before vs after: %s' % (p['k'], x)}
                return out
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['changes'], 1)
    yield from shrinkers.put(plan, ['concurrent'], False)
    for i, c in enumerate(plan['changes']):
        yield from shrinkers.put(plan, ['changes', i, 'fault'], None)
    if plan.get('preempt'):
        yield from shrinkers.drop_items(plan, ['preempt'])
    yield from shrinkers.drop_items(plan, ['probes'])
    yield from shrinkers.world(plan)
    yield from shrinkers.evidences(plan)
