"""C11: conditioning on evidence piece by piece, in any order and across restarts, is conditioning once on all of it."""
import base64
import math

import history
import ops
import ref
import rng as rng_
import shrinkers
import worlds
from props import c16

RUNS = {'quick': 2500, 'thorough': 80000}
STAGES = 2
RULE = ('one evaluation = one model, 2 to 6 pieces of evidence and 2 or 3 routes that condition on them in different orders and '
        'groupings, with copies, saves and loads, queries, interrupted and impossible derivations and one process restart in '
        'between, compared with conditioning once on all pieces; distinct by (data, pieces, routes); non-trivial = the evidence '
        'is possible and all routes were compared')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas'],
    'simulated': ['order and grouping of the pieces', 'asynchronous exceptions', 'process restarts with other hash seed and layout'],
    'reference': ['intersection of the pieces (plain Python)', 'conditioning once'],
}
ASSUMPTIONS = ['evidence with a probability below 1e-10 and single values of continuous variables are not judged']
TINY = 1e-10
Bad = c16.Bad
near = c16.near


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([5, 8, 15, 25, 40]), derive_ok=rng.random() < .5)
    anchor = rng.choice(w['rows'])
    pieces = []
    narrow = rng.random() < .2
    for _ in range(rng.randint(2, 6)):
        i = rng.randrange(len(w['cols'])) if rng.random() < .7 or not pieces else w_index(w, rng.choice(pieces)[0])
        v = worlds.gen_value(rng, w, i, singletons=False)
        if rng.random() < .85:
            v = around(rng, v, anchor[i])
        if narrow and v[0] in ('iv', 'list', 'rs') and rng.random() < .8:
            # a sliver of the range of the data
            r = [row[i] for row in w['rows']]
            x = anchor[i] if rng.random() < .7 else min(r) + rng.random() * (max(r) - min(r))
            d = (max(r) - min(r) or 1.) * rng.choice([1e-2, 1e-3, 1e-4, 1e-5])
            v = ['list', x - rng.random() * d, x + d]
        pieces.append([w['cols'][i]['name'], v])
    routes = []
    for _ in range(rng.choice([2, 2, 3])):
        order = list(range(len(pieces)))
        rng.shuffle(order)
        steps = []
        while order:
            k = rng.choice([1, 1, 1, 2, 3])
            group, order = order[:k], order[k:]
            if rng.random() < .2:
                group.append(rng.randrange(len(pieces)))            # the same again
            between = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                b = rng.choice(['copy', 'pickle', 'json', 'query', 'impossible', 'intr'])
                between.append([b, rng.choice(history.EXC), rng.random(), rng.random() < .3])
            steps.append({'group': group, 'form': rng.choice(['dict', 'dictv', 'label', 'value']), 'between': between})
        routes.append(steps)
    restart = None
    if rng.random() < .6:
        r = rng.randrange(len(routes))
        restart = [r, rng.randrange(len(routes[r]))]
    return {'world': w, 'pieces': pieces, 'routes': routes, 'restart': restart, 'protocol': rng.choice(['pickle', 'json']),
            'queries': [worlds.gen_evidence(rng, w, p=.4, singletons=False) for _ in range(2)]}


def w_index(w, name):
    return [c['name'] for c in w['cols']].index(name)


def around(rng, v, x):
    """the specification v changed so that x is inside"""
    if v[0] in ('iv', 'list'):
        a, b = min(v[1], x - rng.choice([.01, .1, 1.])), max(v[2], x + rng.choice([.01, .1, 1.]))
        if v[0] == 'iv' and v[1] > b:
            a, b = x - .5, x + .5
        return [v[0], a, b] + v[3:]
    if v[0] == 'rs':
        (a, b), (c, d) = v[1]
        if a <= x <= b or c <= x <= d:
            return v
        return ['rs', [[min(a, x - .1), max(b, x + .1)], [c, d]]] if x < c else ['rs', [[a, b], [min(c, x - .1), max(d, x + .1)]]]
    if v[0] == 'one':
        return ['one', x]
    return ['set', v[1] if x in v[1] else v[1] + [x]]


def plain(kind, v):
    """the values a specification denotes: plain intervals or a set of labels"""
    if v[0] == 'iv':
        return [(v[1], v[2], v[3] == 1, v[4] == 1)]
    if v[0] == 'list':
        return [(v[1], v[2], True, True)]
    if v[0] == 'rs':
        out = []
        for a, b in sorted(v[1]):
            if out and out[-1][1] >= a:
                out[-1] = (out[-1][0], max(b, out[-1][1]), True, True)
            else:
                out.append((a, b, True, True))
        return out
    if v[0] == 'one':
        return [v[1]]
    return list(v[1])


def combine(plan, idx):
    """{variable name: plain set} of the given pieces, None if they exclude each other, or 'skip' if only a point is left"""
    kinds = {c['name']: c['kind'] for c in plan['world']['cols']}
    out = {}
    for i in idx:
        n, v = plan['pieces'][i % len(plan['pieces'])]
        s = plain(kinds[n], v)
        if n not in out:
            out[n] = s
        elif kinds[n] in ('num', 'snum'):
            out[n] = ref.cut(out[n], s)
        else:
            out[n] = [x for x in out[n] if x in s]
    for n, s in out.items():
        if kinds[n] in ('num', 'snum'):
            if any(a == b for a, b, _, _ in s):
                return 'skip'
        if not s:
            return None
    return out


def build_evidence(m, plan, ev, form):
    from jpt.base.intervals import ContinuousSet, RealSet
    kinds = {c['name']: c['kind'] for c in plan['world']['cols']}
    d = {}
    for n, s in ev.items():
        if kinds[n] in ('num', 'snum'):
            ivs = [ContinuousSet(a, b, 1 if lc else 2, 1 if uc else 2) for a, b, lc, uc in s]
            d[n] = ivs[0] if len(ivs) == 1 else RealSet(ivs)
        else:
            d[n] = set(s) if len(s) > 1 else s[0]
    if form == 'dict':
        return d
    if form == 'dictv':
        return {m.varnames[k]: v for k, v in d.items()}
    b = m.bind(d)
    return b if form == 'label' else b.value_assignment()


def cond(m, plan, ev, form):
    """model given a plain event, None if it is impossible"""
    if ev is None:
        return None
    return m.conditional_jpt(build_evidence(m, plan, ev, form), fail_on_unsatisfiability=False)


def prob(m, plan, ev, form):
    return 0. if ev is None else float(m.infer(build_evidence(m, plan, ev, form)))


def compare(one, got, env, who):
    """two models of the same distribution"""
    a, b = ref.Model(one), ref.Model(got)
    la, lb = {l[0]: l for l in a.leaves}, {l[0]: l for l in b.leaves}
    for i in sorted(set(la) | set(lb)):
        p, q = (l[i][1] if i in l else 0. for l in (la, lb))
        if not near(q, p):
            raise Bad('prior', '%s: leaf %s has the probability %r, not %r' % (who, i, q, p), 'prior')
        if min(p, q) < TINY:
            continue
        for v in one.variables:
            d, e = la[i][3][v.name], lb[i][3][v.name]
            if v.numeric:
                for x in ref.points(d.low, e.low):
                    if not near(e.F(x), d.F(x)):
                        raise Bad('leaf', '%s, leaf %s: P(%s <= %r) is %r, not %r' % (who, i, v.name, x, e.F(x), d.F(x)), 'leaf')
            else:
                for k in sorted(set(d.p) | set(e.p)):
                    if not near(e.p.get(k, 0.), d.p.get(k, 0.)):
                        raise Bad('leaf', '%s, leaf %s: P(%s = %r) is %r, not %r' % (who, i, v.name, k, e.p.get(k, 0.), d.p.get(k, 0.)), 'leaf')


def answers(one, m, plan, rest, env, who):
    """what m answers given the rest of the evidence is what the model given all of it answers"""
    obj = build_evidence(m, plan, rest, 'dict') if rest else None
    for q in plan['queries']:
        y = c16.event(ref.Model(one), one, q)
        if y is None or not q['map']:
            continue
        env.count('probe:infer')
        want = float(one.infer(y[1]))
        z = c16.event(ref.Model(m), m, q)
        got = m.infer(z[1], obj, fail_on_unsatisfiability=False)
        if got is None or not near(float(got), want):
            raise Bad('infer', '%s: P(%s | rest of the evidence) is %r, not %r' % (who, q['map'], got, want), 'infer')
    env.count('probe:posterior')
    p, q = one.posterior(), m.posterior(evidence=obj, fail_on_unsatisfiability=False)
    if q is None:
        raise Bad('posterior', '%s: no posterior given the rest of the evidence' % who, 'posterior')
    for v in one.variables:
        a = p[v]
        b = q[m.varnames[v.name]]
        if v.numeric:
            d = ref.Num(a)
            e = c16.same_dist(v, b, d.F, None, d.low)
        else:
            d = ref.Disc(a)
            e = c16.same_dist(v, b, None, lambda: d.p, ())
        if e:
            raise Bad('posterior', '%s, given the rest of the evidence: %s' % (who, e), 'posterior')


def run(plan, env, stage, carry):
    w = history.World(plan, env)
    out = {'sets': {}, 'stop': False}
    try:
        if stage == 0:
            m0 = env.build(plan['world'])
        else:
            m0 = w_load(w, carry['m0'])
        everything = combine(plan, range(len(plan['pieces'])))
        if everything == 'skip':
            raise env.Skip('single value')
        try:
            pe = prob(m0, plan, everything, 'dict')
            one = cond(m0, plan, everything, 'label')
        except Exception as e:
            raise env.Skip('evidence: %s' % type(e).__name__)
        if (one is None) != (pe == 0) and not 0 < pe < TINY:
            raise Bad('impossible', 'all at once: probability %r but %s model' % (pe, 'no' if one is None else 'a'), 'cond')
        if 0 < pe < TINY:
            raise env.Skip('improbable')
        done = True
        for r, steps in enumerate(plan['routes']):
            m, prod, seen, k0 = m0, 1., [], 0
            if stage == 1 and r < carry['route']:
                continue
            if stage == 1 and r == carry['route']:
                m, prod, seen, k0 = w_load(w, carry['m']), carry['prod'], carry['seen'], carry['step']
            for k in range(k0, len(steps)):
                st = steps[k]
                who = 'route %d step %d' % (r, k)
                if stage == 0 and plan['restart'] == [r, k]:
                    out['carry'] = {'m0': w_save(w, m0), 'm': w_save(w, m), 'prod': prod, 'seen': seen, 'route': r, 'step': k}
                    env.count('op:restart')
                    return out
                for b in st['between']:
                    env.count('op:' + b[0])
                    m = between(w, m, b, plan, st, env, who)
                ev = combine(plan, st['group'])
                if ev == 'skip':
                    done = False
                    break
                env.event(r, k)
                env.count('op:cond')
                try:
                    p = prob(m, plan, ev, st['form'])
                    c = cond(m, plan, ev, st['form'])
                except Exception as e:
                    if prod < TINY:
                        done = False
                        break
                    raise Bad('failed', '%s: %s: %s' % (who, type(e).__name__, str(e)[:200]), type(e).__name__)
                if not 0 < p < TINY and (c is None) != (p == 0):
                    raise Bad('impossible', '%s: probability %r but %s model' % (who, p, 'no' if c is None else 'a'), 'cond')
                prod *= p
                seen = seen + st['group']
                m = c
                if prod < TINY and (pe > 0 or prod > 0):
                    if pe > 10 * TINY:
                        raise Bad('product', '%s: the pieces so far have probability %r, all of them %r' % (who, prod, pe), 'product')
                    done = False
                    break
                if m is None:
                    if pe > 0:
                        raise Bad('impossible', '%s: impossible, the whole evidence has probability %r' % (who, pe), 'cond')
                    break
                rest = combine(plan, [i for i in range(len(plan['pieces'])) if i not in seen])
                if pe > 0 and rest != 'skip':
                    if rest is None:
                        raise Bad('impossible', '%s: harness' % who, 'harness')
                    answers(one, m, plan, rest, env, who)
            else:
                if pe == 0:
                    raise Bad('possible', 'route %d: possible with probability %r, at once it is impossible' % (r, prod), 'cond')
                if not near(prod, pe, 1e-6, 1e-3):
                    raise Bad('product', 'route %d: the pieces have the probability %r, all at once %r' % (r, prod, pe), 'product')
                compare(one, m, env, 'route %d' % r)
                continue
            if not done:
                break
    except Bad as b:
        out['violation'] = b.v
        return out
    out['stop'] = True
    out['sets']['distinct'] = [rng_.derive(repr(plan['routes']), repr(plan['pieces']), repr(plan['world']['rows']))] if done and pe > 0 else []
    out['sets']['outcomes'] = ['impossible' if pe == 0 else 'possible']
    out['sample'] = {'pieces': plan['pieces'], 'routes': [[s['group'] for s in r] for r in plan['routes']], 'p': pe}
    return out


def between(w, m, b, plan, st, env, who):
    k = b[0]
    if k == 'copy':
        return m.copy()
    if k in ('pickle', 'json'):
        return w.load(w.save(m, k), k)
    if k == 'query':
        try:
            m.mpe()
            m.expectation()
        except Exception:
            pass
    elif k == 'impossible':
        n = m.variables[0]
        e = {n.name: [1e9, 2e9]} if n.numeric else {n.name: set()}
        try:
            m.conditional_jpt(e)
        except Exception:
            env.count('fault:impossible')
    elif k == 'intr':
        ev = combine(plan, st['group'])
        if ev and ev != 'skip':
            try:
                w.interrupted(lambda: cond(m, plan, ev, st['form']), b[1], b[2], b[3])
            except Exception:
                pass
    return m


def w_save(w, m):
    d = w.save(m, w.plan['protocol'])
    return d if isinstance(d, str) else base64.b64encode(d).decode()


def w_load(w, d):
    return w.load(d if w.plan['protocol'] == 'json' else base64.b64decode(d), w.plan['protocol'])


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['routes'], 1)
    for r in range(len(plan['routes'])):
        for s in range(len(plan['routes'][r])):
            yield from shrinkers.drop_items(plan, ['routes', r, s, 'between'])
            yield from shrinkers.put(plan, ['routes', r, s, 'form'], 'dict')
    if plan['restart']:
        yield shrinkers._with(plan, ['restart'], None)
    # a piece less, everywhere
    if len(plan['pieces']) > 1:
        for i in range(len(plan['pieces'])):
            import copy
            p = copy.deepcopy(plan)
            del p['pieces'][i]
            for r in p['routes']:
                for s in r:
                    s['group'] = [g - (g > i) for g in s['group'] if g != i]
            p['routes'] = [[s for s in r if s['group']] for r in p['routes']]
            if all(p['routes']):
                if p['restart']:
                    p['restart'][1] = min(p['restart'][1], len(p['routes'][p['restart'][0]]) - 1) if p['restart'][0] < len(p['routes']) else 0
                yield p
    yield from shrinkers.world(plan)
    for i, e in enumerate(plan['queries']):
        for k in list(e['map']):
            yield shrinkers._with(plan, ['queries', i, 'map'], {a: b for a, b in e['map'].items() if a != k})
