"""C12: in-place updates happen completely or not at all."""
import math

import ops
import rng as rng_
import shrinkers
import worlds
from props import c05, c10

RUNS = {'quick': 1200, 'thorough': 60000}
STAGES = 1
RULE = ('one evaluation = one history of in-place updates of one model, its distributions, copies of them, fresh distributions and '
        'a sequence model, each with bad arguments, or repeated with every one of its array allocations failing in turn; distinct '
        'by (update, kind of failure); non-trivial = an update raised and the object was compared with its snapshot')
LEVEL = 'fault_enumeration'
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas'],
    'simulated': ['the allocator of array data', 'bad arguments'],
    'reference': ['snapshot of the object before the update'],
}
ASSUMPTIONS = ['memory runs out in allocations of array data; allocations of the interpreter itself are not failed here',
               'arguments of wrong length, type, range, domain or shape; an argument that is accepted is not judged']
BAD = {
    'mlp': ['missing', 'missing', 'zero', 'string', 'none', 'list', 'tiny', 'negative', 'nan'],
    'normalize': ['zero'],
    'learn': c05.BAD,
    'set': ['short', 'long', 'strings', 'none', 'nested', 'late'],
    'update': ['big', 'negative', 'none', 'other', 'unfitted', 'string', 'nan', 'model'],
    'fit': ['late', 'late', 'nan', 'shape', 'type', 'none', 'rows', 'empty'],
    'item': ['label', 'string', 'array', 'none'],
    'dirac': ['string', 'none', 'list'],
    'convex': ['zero', 'string', 'order', 'none'],
    'qfit': ['leftmost', 'rightmost', 'type', 'shape', 'empty'],
    'qpdf': ['type', 'none'],
    'sfit': ['steps', 'late', 'width', 'none', 'empty', 'value'],
}
ON_DIST = ['set', 'update', 'fit', 'item']
ON_NUM = ['update', 'update', 'fit', 'fit', 'dirac', 'convex', 'qfit', 'qpdf']


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([4, 8, 15, 25]), derive_ok=rng.random() < .3)
    w['keep'] = False
    w['gaps'] = w.get('gaps', True)
    steps = []
    for _ in range(rng.choice([4, 6, 9])):
        r = rng.random()
        s = {'seed': rng.randrange(1 << 30), 'how': rng.choice(['bad', 'bad', 'alloc', 'fine']), 'leaf': rng.randrange(64)}
        if r < .12:
            s['op'] = 'mlp'
        elif r < .17:
            s['op'] = 'normalize'
            s['how'] = 'bad'
        elif r < .3:
            s['op'] = 'learn'
        elif r < .38:
            s['op'] = 'sfit'
        else:
            i = rng.randrange(len(w['cols']))
            s['v'] = w['cols'][i]['name']
            s['op'] = rng.choice(ON_NUM if w['cols'][i]['kind'] in ('num', 'snum') else ON_DIST)
            s['on'] = rng.choice(['leaf', 'leaf', 'copy', 'fresh', 'prior'])
        s['bad'] = rng.choice(BAD[s['op']])
        steps.append(s)
    sets = [[[rng.randrange(64) for _ in range(rng.randint(2, 5))] for _ in range(rng.randint(1, 3))] for _ in range(2)]
    return {'world': w, 'steps': steps, 'sets': sets, 'object': rng.random() < .5, 'bound': 30,
            'evs': [worlds.gen_evidence(rng, w, form='dict')], 'probes': ops.probe_ops(rng, w, 1, 3)}


# ---------------------------------------------------------------------------------------------------------------------

def fdist(d):
    """what can be seen of a distribution"""
    if hasattr(type(d), 'ppf'):
        try:
            c = d.cdf
        except Exception:
            return 'not fitted'
        if c is None:
            return 'not fitted'
        out = [[[float(i.lower), float(i.upper), int(i.left), int(i.right), str(f.to_json())] for i, f in zip(c.intervals, c.functions)]]
        xs = sorted({x for i in c.intervals for x in (i.lower, i.upper) if not math.isinf(x)})
        xs += [(a + b) / 2 for a, b in zip(xs, xs[1:])]
        for q, pts in ((lambda x: d.pdf.eval(x), xs[:24]), (lambda x: d.ppf.eval(x), [.05, .3, .5, .7, .95])):
            vals = []
            for x in pts:
                try:
                    vals.append(repr(float(q(x))))
                except Exception as e:
                    vals.append(type(e).__name__)
            out.append(vals)
        out.append(type(d).__name__)
        return [len(out[0]), [[repr(x) for x in p] for p in out[0]], out[1:]]
    p = d.probabilities
    return 'not fitted' if p is None else [repr(float(x)) for x in p]


class Target:

    def __init__(self, kind, name, look):
        self.kind, self.name, self.look = kind, name, look


def fresh(m, v):
    return m.varnames[v].distribution()


def garbage(plan, m, s, d, v, bad):
    """-> function of no arguments that performs the update"""
    import numpy as np
    from jpt.base.functions import PiecewiseFunction, ConstantFunction
    from jpt.base.intervals import ContinuousSet
    r = rng_.stream(s['seed'], 'args')
    op, b = s['op'], s['bad'] if bad else None
    w = plan['world']
    i = [c['name'] for c in w['cols']].index(v)
    num = w['cols'][i]['kind'] in ('num', 'snum')
    col = [x[i] for x in w['rows']]
    if op == 'set':
        n = d.n_values
        p = [r.random() + .01 for _ in range(n)]
        p = [x / sum(p) for x in p]
        p = {'short': p[:-1], 'long': p + [.1], 'strings': ['x'] * n, 'none': None, 'nested': [p] * (n + 1),
             'late': p[:-1] + ['x']}.get(b, p)
        return lambda: d.set(p)
    if op == 'update':
        o = fresh(m, v)
        if num:
            o.fit(np.array([[float(r.choice(col) if r.random() < .5 else r.random() * 9)] for _ in range(r.choice([1, 2, 5]))], dtype=np.float64))
        else:
            p = [r.random() + .01 for _ in range(o.n_values)]
            o.set([x / sum(p) for x in p])
        wt = round(r.random(), 3)
        if b in ('big', 'negative', 'string', 'nan'):
            wt = {'big': 1.5, 'negative': -.1, 'string': 'x', 'nan': float('nan')}[b]
        elif b == 'none':
            o = None
        elif b == 'model':
            o = m
        elif b == 'unfitted':
            o = fresh(m, v)
        elif b == 'other':
            names = [c['name'] for c in w['cols']]
            leaf = list(m.leaves.values())[0]
            cand = [leaf.distributions[m.varnames[n]] for n in names if n != v]
            if not num:
                cand = [x for x in cand if hasattr(x, 'n_values') and x.n_values != d.n_values] + [x for x in cand if not hasattr(x, 'n_values')]
            else:
                cand = [x for x in cand if hasattr(x, 'n_values')]
            if not cand:
                return None
            o = r.choice(cand)
        return lambda: d.update(o, wt)
    if op == 'fit':
        if num:
            data = np.array([[float(x)] for x in col], dtype=np.float64)
            kw = {}
        else:
            data = np.array([[float(r.randrange(d.n_values))] for x in col], dtype=np.float64)
            kw = {}
        if b == 'late':
            if num:
                return None
            data[-1, 0] = d.n_values + r.randrange(3)
        elif b == 'nan':
            if num:
                return None
            data[-1, 0] = float('nan')
        elif b == 'shape':
            data = data[:, 0].copy()
        elif b == 'type':
            data = data.astype(object)
            data[-1, 0] = 'x'
        elif b == 'none':
            data = None
        elif b == 'empty':
            data = data[:0]
            if not num:
                return None
        elif b == 'rows':
            if num:
                kw['rows'] = 'x'
            else:
                kw['rows'] = [0, len(data)]
        return lambda: d._fit(data, **kw)
    if op == 'item':
        labels = list(type(d).labels.values()) if not hasattr(type(d), 'lmin') else [0]
        lab, p = r.choice(labels), round(r.random(), 3)
        if b == 'label':
            lab = 'no such label'
        elif b == 'string':
            p = 'x'
        elif b == 'array':
            p = [.1, .2, .7]
        elif b == 'none':
            p = None

        def setitem():
            d[lab] = p
        return setitem
    if op == 'dirac':
        x = {'string': 'x', 'none': [], 'list': [1., 2.]}.get(b, float(r.choice(col)))
        return lambda: d.create_dirac_impulse(x)
    if op == 'convex':
        lo, hi = min(col), max(col)
        left, right, n = ContinuousSet(lo - 2, lo - 1), ContinuousSet(hi + 1, hi + 2), r.choice([1, 5, 40])
        if b == 'zero':
            n = 0
        elif b == 'string':
            right = 'x'
        elif b == 'order':
            left, right = right, left
        elif b == 'none':
            n = None
        return lambda: d.insert_convex_fragments(left, right, n)
    q = d._quantile
    if op == 'qfit':
        data = np.array([[float(x)] for x in col], dtype=np.float64)
        rows = np.arange(len(col), dtype=np.int64)
        kw = {}
        if b in ('leftmost', 'rightmost'):
            kw[b] = sorted(col)[len(col) // 2]
        elif b == 'type':
            data = data.astype(np.int64)
        elif b == 'shape':
            data = data[:, 0].copy()
        elif b == 'empty':
            data, rows = data[:0], rows[:0]
        return lambda: q.fit(data, rows, 0, **kw)
    if op == 'qpdf':
        lo = float(r.choice(col))
        pdf = PiecewiseFunction()
        pdf.intervals = [ContinuousSet(-math.inf, lo, 2, 2), ContinuousSet(lo, lo + 2, 1, 2), ContinuousSet(lo + 2, math.inf, 1, 2)]
        pdf.functions = [ConstantFunction(0), ConstantFunction(.5), ConstantFunction(0)]
        pdf = {'type': 'x', 'none': None}.get(b, pdf)

        def setpdf():
            q.pdf = pdf
        return setpdf
    raise ValueError(op)


def run(plan, env, stage, carry):
    import numpy as np
    w = plan['world']
    env.ms.ms_install()
    m = env.build(w)
    names = [c['name'] for c in w['cols']]
    out = {'sets': {'distinct': []}, 'stop': True, 'sample': {'updates': [[s['op'], s['bad'] if s['how'] == 'bad' else s['how']] for s in plan['steps']]}}
    copies = {}
    seq = None

    def look_model():
        return [env.canon(m), {str(i): {v.name: fdist(l.distributions[v]) for v in l.distributions} for i, l in sorted(m.leaves.items())},
                [ops.outcome(ops.Client(m, w, plan['evs']), p, env.canon) for p in plan['probes']]]
    for j, s in enumerate(plan['steps']):
        op = s['op']
        bad = s['how'] == 'bad'
        look, prep, extra = look_model, None, None
        try:
            if op == 'mlp':
                r = rng_.stream(s['seed'], 'mlp')
                pr = {i: round(r.random() + .01, 3) for i in sorted(m.leaves)}
                if bad:
                    k = r.choice(sorted(pr))
                    if s['bad'] == 'missing':
                        del pr[k]
                    elif s['bad'] == 'zero':
                        pr = {i: 0. for i in pr}
                    elif s['bad'] == 'string':
                        pr[k] = 'x'
                    elif s['bad'] == 'none':
                        pr[k] = None
                    elif s['bad'] == 'list':
                        pr[k] = [1.]
                    elif s['bad'] == 'negative':
                        pr[k] = -pr[k] / 3
                    elif s['bad'] == 'nan':
                        pr[k] = float('nan')
                    elif s['bad'] == 'tiny':
                        pr = {i: 5e-324 for i in pr}
                prep = lambda: (lambda: m.multiply_by_leaf_prior(pr))
            elif op == 'normalize':
                was = {i: l.prior for i, l in m.leaves.items()}
                for l in m.leaves.values():
                    l.prior = 0.

                def undo():
                    for i, l in m.leaves.items():
                        l.prior = was[i]
                extra = undo
                look = lambda: [[float(l.prior) for l in m.leaves.values()], {str(i): {v.name: fdist(l.distributions[v]) for v in l.distributions}
                                                                               for i, l in sorted(m.leaves.items())}]
                prep = lambda: m.normalize
            elif op == 'learn':
                args = c05.bad_args(w, {'seed': s['seed'], 'rows': 'half', 'bad': s['bad']}) if bad else worlds.learn_args(w, c05.pick_rows(w, {'seed': s['seed'], 'rows': 'half'}))
                if args is None:
                    continue
                prep = lambda: (lambda: m.learn(keep_samples=False, close_convex_gaps=w['gaps'], **args))
            elif op == 'sfit':
                if seq is None:
                    seq = c10.fresh(plan)
                    try:
                        c10.fit(seq, plan, 0, 2)
                    except Exception:
                        env.count('probe:no sequence model')
                ss = c10.sequences(plan, 1)
                ts = 2
                if bad:
                    if s['bad'] == 'steps':
                        ts = 50
                    elif s['bad'] == 'late':
                        ss = ss + [ss[-1][:1]]
                    elif s['bad'] == 'width':
                        ss = ss + [ss[-1][:, :-1]]
                    elif s['bad'] == 'none':
                        ss = ss + [None]
                    elif s['bad'] == 'empty':
                        ss = []
                    elif s['bad'] == 'value':
                        x = ss[-1].astype(object)
                        x[-1, 0] = 'no such label'
                        ss = ss[:-1] + [x]
                q = seq

                def look_seq():
                    t = q.template_tree
                    if t.root is None:
                        return [None, sorted(t.leaves), sorted(t.innernodes), q.transition_model is None]
                    return c10.state(q, env) + [{str(i): {v.name: fdist(l.distributions[v]) for v in l.distributions} for i, l in sorted(t.leaves.items())}]
                look = look_seq
                prep = lambda: (lambda: q.fit(ss, timesteps=ts))
            else:
                v = s['v']
                leaf = m.leaves[sorted(m.leaves)[s['leaf'] % len(m.leaves)]]
                if s['on'] == 'prior':
                    d = m.priors[v] if v in m.priors else None
                elif s['on'] == 'fresh':
                    d = fresh(m, v)
                else:
                    d = leaf.distributions[m.varnames[v]]
                    if s['on'] == 'copy':
                        d = copies.setdefault((v, s['leaf'] % 3), d.copy())
                if d is None or op in ('qfit', 'qpdf') and s['on'] == 'fresh':
                    continue
                look = lambda: [fdist(d)]
                fn = garbage(plan, m, s, d, v, bad)
                if fn is None:
                    continue
                prep = lambda: fn
        except env.Skip:
            raise
        key = '%s %s' % (op, s['bad'] if bad else 'memory')
        env.count('op:' + op)
        n_fault = 0
        for at in range(1, 2 if s['how'] != 'alloc' else plan['bound']):
            fn = prep()
            before = look()
            del env.swallowed[:]
            env.ms.ms_config(0, 0, 0, at if s['how'] == 'alloc' else -1, 0)
            try:
                fn()
                how = 'ok'
            except BaseException as e:
                how = type(e).__name__
            finally:
                failed = env.ms.ms_failed()
                env.ms.ms_config(0, 0, 0, -1, 0)
            env.event(j, op, how, at)
            if failed:
                env.count('fault:failed allocation')
            if how == 'ok':
                if bad:
                    # accepted all the same: what the object is now may be anything
                    env.count('probe:bad arguments accepted')
                    return out
                if not failed:
                    break
                continue
            n_fault += 1
            env.count('fault:bad arguments' if bad else 'probe:raised')
            env.count('probe:raised ' + op)
            out['sets']['distinct'].append('%s %s %s %d' % (key, s.get('on'), how, at))
            try:
                after = look()
                diff = env.canon_diff(before, after, 0)
            except Exception as e:
                diff = 'the object cannot be looked at any more: %s: %s' % (type(e).__name__, str(e)[:150])
            if diff:
                out['violation'] = {'kind': 'partial', 'site': '%s %s' % (op, how),
                                    'msg': 'step %d: %s of %s raised %s (%s) and changed the object: %s' % (
                                        j, op, s.get('on', 'the model') + ' ' + s.get('v', ''), how,
                                        s['bad'] if bad else 'allocation %d fails' % at if failed else 'valid arguments', diff)}
                return out
            if s['how'] == 'alloc' and not failed:
                break
        if extra is not None:
            extra()
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 1)
    yield from shrinkers.drop_items(plan, ['probes'])
    yield from shrinkers.world(plan)
    yield from shrinkers.evidences(plan)
