"""C15: every model at hand, after any history, is a probability model."""
import math

import history
import ops
import ref
import rng as rng_
import shrinkers
import worlds

RUNS = {'quick': 1200, 'thorough': 60000}
STAGES = 2
RULE = ('one evaluation = one history of up to 25 operations (conditioning also on single values, pruning, copying, storing and '
        'reloading, reweighting, relearning, queries, rejected and interrupted operations, a restart in a differently laid out '
        'process) over a pool of live models, after each of which the invariants are evaluated on the models concerned; distinct '
        'by (history, data); non-trivial = at least two different operations took place')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas'],
    'simulated': ['order of operations', 'asynchronous exceptions', 'rejected operations', 'process restarts with other hash seed and layout'],
}
ASSUMPTIONS = ['an operation that the model rejects is judged by what it leaves behind only',
               'evidence with a probability below 1e-9 is not judged']
TOL = 1e-6


def gen(rng, idx):
    plan = history.gen_history(rng)
    w = plan['world']
    plan['queries'] = [worlds.gen_evidence(rng, w, p=.4) for _ in range(2)]
    # chains of growing sets and rows that no training example equals
    chains = {}
    for i, c in enumerate(w['cols']):
        vals = [r[i] for r in w['rows']]
        if c['kind'] in ('num', 'snum'):
            lo, hi = min(vals), max(vals)
            span = (hi - lo) or 1.
            pts = sorted({rng.choice(vals) if rng.random() < .5 else round(lo + span * (rng.random() * 1.6 - .3), 4) for _ in range(6)})
            mid = len(pts) // 2
            ch = [[pts[max(0, mid - k - 1)], pts[min(len(pts) - 1, mid + k)], rng.choice([1, 2]), rng.choice([1, 2])] for k in range(3)]
            chains[c['name']] = ['iv', [x for x in ch if x[0] < x[1]]]
        else:
            d = list(worlds.domain(w, i))
            rng.shuffle(d)
            chains[c['name']] = ['set', d]
    plan['chains'] = chains
    rows = []
    for _ in range(4):
        row = {}
        for i, c in enumerate(w['cols']):
            vals = [r[i] for r in w['rows']]
            if c['kind'] in ('num', 'snum'):
                r = rng.random()
                lo, hi = min(vals), max(vals)
                row[c['name']] = (rng.choice(vals) if r < .4 else round(lo + (hi - lo) * rng.random(), 5) if r < .8
                                  else lo - 1 - rng.random() if r < .9 else hi + 1 + rng.random())
            else:
                row[c['name']] = rng.choice(list(worlds.domain(w, i)))
        rows.append(row)
    plan['rows'] = rows
    return plan


class Bad(Exception):

    def __init__(self, kind, msg, site=None):
        super().__init__(msg)
        self.v = {'kind': kind, 'msg': msg, 'site': site}


def dist(v, d, who, strict=True):
    """one univariate distribution"""
    if v.numeric:
        c = d.cdf
        fs, ivs = list(c.functions), list(c.intervals)
        if len(fs) != len(ivs) or len(fs) < 2:
            raise Bad('cdf', '%s: %s has %d pieces and %d intervals' % (who, v.name, len(fs), len(ivs)), 'cdf')
        if not (ivs[0].lower == -math.inf and ivs[-1].upper == math.inf):
            raise Bad('cdf', '%s: the CDF of %s covers %s to %s' % (who, v.name, ivs[0].lower, ivs[-1].upper), 'cdf')
        last = 0.
        for k, (i, f) in enumerate(zip(ivs, fs)):
            m = float(getattr(f, 'm', 0.))
            if k and not (i.lower == ivs[k - 1].upper and i.lower < i.upper):
                raise Bad('cdf', '%s: the pieces of the CDF of %s are not adjacent at %r, %r' % (who, v.name, ivs[k - 1].upper, i.lower), 'cdf')
            a = float(f.eval(i.lower)) if not math.isinf(i.lower) else float(f.c)
            b = float(f.eval(i.upper)) if not math.isinf(i.upper) else float(f.c)
            if math.isnan(a) or math.isnan(b) or math.isnan(m):
                raise Bad('cdf', '%s: the CDF of %s is not a number at %r' % (who, v.name, i.lower), 'cdf')
            if m < 0 or a < last - TOL or b < a - TOL:
                raise Bad('cdf', '%s: the CDF of %s decreases at %r: %r, %r, %r' % (who, v.name, i.lower, last, a, b), 'cdf')
            last = b
        if abs(float(fs[0].c)) > TOL or abs(last - 1) > TOL:
            raise Bad('cdf', '%s: the CDF of %s runs from %r to %r' % (who, v.name, float(fs[0].c), last), 'cdf')
        quantiles(v, d, ivs, fs, who)
        from jpt.base.intervals import R
        total = float(d._p(R))
    else:
        ps = [float(p) for p in d.probabilities]
        if len(ps) != len(list(type(d).values.values())):
            raise Bad('table', '%s: %s has %d probabilities' % (who, v.name, len(ps)), 'table')
        if any(math.isnan(p) or p < -1e-12 or p > 1 + TOL for p in ps) or abs(sum(ps) - 1) > TOL:
            raise Bad('table', '%s: the probabilities of %s are %s' % (who, v.name, ps), 'table')
        total = float(d._p(set(type(d).values.values())))
    if abs(total - 1) > TOL:
        raise Bad('domain', '%s: the whole domain of %s has probability %r' % (who, v.name, total), 'domain')


def quantiles(v, d, ivs, fs, who):
    """the quantile function inverts the CDF, also where that jumps or is flat"""
    ys = []
    for i, f in zip(ivs, fs):
        ys += [float(f.eval(x)) for x in (i.lower, i.upper) if not math.isinf(x)]
    ys = sorted({0., 1.} | {min(1., max(0., y)) for y in ys})
    ps = sorted({(a + b) / 2 for a, b in zip(ys, ys[1:]) if b - a > 1e-5} | {.05, .5, .95})
    for p in ps:
        try:
            x = float(d.ppf.eval(p))
        except Exception as e:
            raise Bad('ppf', '%s: the quantile function of %s fails at %r: %s %s' % (who, v.name, p, type(e).__name__, str(e)[:120]), 'ppf')
        if math.isnan(x):
            raise Bad('ppf', '%s: the %r quantile of %s is not a number' % (who, p, v.name), 'ppf')
        eps = 1e-7 * (1 + abs(x))
        lo, hi = float(d.cdf.eval(x - eps)), float(d.cdf.eval(x + eps))
        if lo > p + TOL or hi < p - TOL:
            raise Bad('ppf', '%s: the %r quantile of %s is %r, where the CDF goes from %r to %r' % (who, p, v.name, x, lo, hi), 'ppf')


def chains(v, d, ch, who):
    from jpt.base.intervals import ContinuousSet
    last, before = 0., None
    if v.numeric:
        sets = [ContinuousSet(*x) for x in ch[1]]
        # a set grows only if its bounds do not become open
        sets = [s for k, s in enumerate(sets) if not k or sets[k - 1].lower > s.lower and sets[k - 1].upper < s.upper]
    else:
        sets = [set(ch[1][:k + 1]) for k in range(len(ch[1]))]
        sets = [s for s in sets if all(x in type(d).values for x in s)] if hasattr(type(d).values, '__contains__') else sets
    for s in sets:
        try:
            p = float(d.p(s))
        except (ValueError, KeyError, TypeError):
            continue
        if math.isnan(p) or p < 0 or p > 1 + TOL:
            raise Bad('range', '%s: P(%s in %s) is %r' % (who, v.name, s, p), 'range')
        if p < last - TOL:
            raise Bad('monotone', '%s: P(%s in %s) is %r, less than that of its subset %s, %r' % (who, v.name, s, p, before, last), 'monotone')
        last, before = p, s


def invariants(m, plan, env, who, full=True):
    env.count('probe:model')
    ws = [float(l.prior) for l in m.leaves.values()]
    if not ws:
        raise Bad('leaves', '%s: no leaves' % who, 'leaves')
    if any(math.isnan(p) or p < 0 or p > 1 + TOL for p in ws) or abs(sum(ws) - 1) > TOL:
        raise Bad('leaves', '%s: leaf probabilities %s' % (who, ws), 'leaves')
    vs = list(m.variables)
    for i, l in sorted(m.leaves.items()):
        if {v.name for v in l.distributions} != {v.name for v in vs}:
            raise Bad('leaf', '%s: leaf %s has distributions of %s' % (who, i, sorted(v.name for v in l.distributions)), 'leaf')
        for v in vs:
            dist(v, l.distributions[v], '%s, leaf %s' % (who, i))
            if full:
                chains(v, l.distributions[v], plan['chains'][v.name], '%s, leaf %s' % (who, i))
    reach = sorted(l.idx for l in m.apply({}))
    if reach != sorted(m.leaves):
        raise Bad('tree', '%s: leaves %s are reached from the root, there are %s' % (who, reach, sorted(m.leaves)), 'tree')
    if not full:
        return
    # complete rows
    r = ref.Model(m)
    names = [c['name'] for c in plan['world']['cols']]
    for row in plan['rows'] + [dict(zip(names, x)) for x in plan['world']['rows'][:3]]:
        try:
            b = m.bind({n: row[n] for n in names}, allow_singular_values=True)
            ev = r.event(b.value_assignment())
        except Exception:
            continue
        n = [i for i, _, path, _ in r.leaves if all(r.meet(k, s, ev[k]) for k, s in path.items())]
        env.count('probe:row')
        whole = plan['whole'].get(id(m), False)
        if len(n) > 1 or (whole and len(n) != 1):
            raise Bad('partition', '%s: leaves %s apply to the row %s' % (who, n, row), 'partition')
    # answers
    for e in plan['queries'] + plan['evs'][:2]:
        try:
            x = worlds.evidence(m, e)
        except Exception:
            continue
        for q in plan['queries']:
            try:
                p = m.infer(worlds.evidence(m, q), x, fail_on_unsatisfiability=False)
            except Exception:
                continue
            env.count('probe:infer')
            if p is not None and not (-1e-12 <= float(p) <= 1 + TOL):
                raise Bad('range', '%s: P(%s | %s) is %r' % (who, q['map'], e['map'], float(p)), 'infer')
        try:
            post = m.posterior(evidence=x, fail_on_unsatisfiability=False)
        except Exception:
            continue
        if post is not None and tiny(m, x):
            env.count('probe:posterior')
            for v in post:
                dist(v, post[v], '%s, posterior given %s' % (who, e['map']))


def tiny(m, x):
    """False if the evidence is too improbable to be judged"""
    try:
        b = m.bind(x) if isinstance(x, dict) else x
        a = b.value_assignment() if hasattr(b, 'value_assignment') else b
        r = ref.Model(m)
        ev = r.event(a)
        if any(k in r.num and any(s[0] == s[1] for s in v) for k, v in ev.items()):
            return True
        masses = [p for p in r.leaf_masses(ev) if p > 0]
        return bool(masses) and sum(masses) > 1e-9
    except Exception:
        return False


def run(plan, env, stage, carry):
    w = history.World(plan, env)
    out = {'sets': {}, 'stop': False}
    plan['whole'] = whole = {}                  # models that cover the whole space
    kinds = set()

    def check(j, who, full=True):
        m = w.pool[j]
        try:
            invariants(m, plan, env, who, full)
        except Bad:
            raise
        except Exception as e:
            import traceback
            at = [f.name for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(env.prefix)]
            if not at:
                raise
            raise Bad('broken', '%s: %s in %s: %s' % (who, type(e).__name__, at[0], str(e)[:200]), '%s %s' % (at[0], type(e).__name__))

    def drop(j):
        whole.pop(id(w.pool[j]), None)
        del w.pool[j], w.ids[j]

    def relearn(m, k):
        """may fail for reasons that are judged elsewhere; -> whether there is a model"""
        try:
            worlds.learn(plan['world'], model=m, rows=w.rows(k))
            whole[id(m)] = True
            return True
        except Exception:
            return False

    start = 0
    try:
        if stage == 0:
            w.add(env.build(plan['world']))
            whole[id(w.pool[0])] = not any(s['op'] == 'cond' for s in plan['world']['derive'])
            check(0, 'learned model')
        else:
            w.thaw(carry['pool'])
            start, kinds = carry['at'], set(carry['kinds'])
            for j, f in enumerate(carry['whole']):
                whole[id(w.pool[j])] = f
                check(j, 'model %d after the restart' % w.ids[j])
        for n in range(start, len(plan['steps'])):
            st = plan['steps'][n]
            k = st[0]
            env.event('step', n, k)
            env.count('op:' + k)
            if k == 'restart':
                if stage == 0:
                    try:
                        pool = w.freeze()
                    except Exception as e:
                        raise env.Skip('storing: %s' % type(e).__name__)
                    out['carry'] = {'pool': pool, 'at': n + 1, 'kinds': sorted(kinds), 'whole': [whole.get(id(m), False) for m in w.pool]}
                    return out
                continue
            if not w.pool:
                break
            kinds.add(k)
            j = st[1] % len(w.pool)
            m = w.pool[j]
            who = 'step %d (%s of model %d)' % (n, k, w.ids[j])
            if k in ('cond', 'prune', 'copy', 'reload'):
                judged = k != 'cond' or any_event(m, w, st)
                try:
                    res = w.derive(m, st)
                except Exception as e:
                    env.event('raised', type(e).__name__)
                    res = None
                if res is not None and judged:
                    i = w.add(res)
                    whole[id(res)] = whole.get(id(m), False) and k != 'cond'
                    check(i, who)
                if w.pool and m in [x for x in w.pool if x is m]:
                    check(next(i for i, x in enumerate(w.pool) if x is m), who + ', source', False)
            elif k == 'mlp':
                ws = w.weights(m, st[2])
                if sum(float(l.prior) * ws[i] for i, l in m.leaves.items()) < 1e-9:
                    continue
                try:
                    m.multiply_by_leaf_prior(ws)
                except Exception as e:
                    env.event('raised', type(e).__name__)
                check(j, who)
            elif k == 'relearn':
                if relearn(m, st[2]):
                    check(j, who)
                else:
                    drop(j)
            elif k == 'fail':
                raised = w.failing(m, st[2])
                env.count('fault:' + st[2])
                if not raised and st[2].startswith('learn'):
                    drop(j)
                    continue
                check(j, who + ' ' + st[2])
            elif k == 'query':
                try:
                    c = ops.Client(m, plan['world'], plan['evs'])
                except Exception:
                    continue
                ops.outcome(c, st[2], env.canon)
                check(j, who + ' ' + st[2]['k'], False)
            elif k == 'intr':
                what = st[2]
                if what[0] == 'query':
                    try:
                        c = ops.Client(m, plan['world'], plan['evs'])
                    except Exception:
                        continue
                    fn = lambda: ops.outcome(c, what[2], env.canon)
                elif what[0] == 'relearn':
                    fn = lambda: worlds.learn(plan['world'], model=m, rows=w.rows(what[2]))
                else:
                    fn = lambda: w.derive(m, what)
                try:
                    w.interrupted(fn, st[3], st[4], st[5])
                except Exception as e:
                    env.event('raised', type(e).__name__)
                if what[0] == 'relearn' and not relearn(m, what[2]):     # what is left of it can only be learnt again
                    drop(j)
                    continue
                check(j, who + ' interrupted')
        for j in range(len(w.pool)):
            check(j, 'model %d in the end' % w.ids[j], False)
    except Bad as b:
        plan.pop('whole', None)
        out['violation'] = b.v
        return out
    plan.pop('whole', None)
    out['stop'] = True
    out['sets']['distinct'] = [rng_.derive(repr(plan['steps']), repr(plan['world']['rows']))] if len(kinds) > 1 else []
    out['sets']['histories'] = ['-'.join(s[0] for s in plan['steps'][:6])]
    out['sample'] = {'steps': [s[:2] + [s[2] if s[0] != 'query' else s[2]['k']] if len(s) > 2 else s for s in plan['steps'][:12]], 'models': w.next_id}
    return out


def any_event(m, w, st):
    try:
        return tiny(m, w.ev(m, st[2]))
    except Exception:
        return False


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 0)
    yield from shrinkers.world(plan)
    for key in ('evs', 'queries'):
        for i, e in enumerate(plan[key]):
            for k in list(e['map']):
                yield shrinkers._with(plan, [key, i, 'map'], {a: b for a, b in e['map'].items() if a != k})
