"""C16: whatever happened to a model before, its answers are those of the mixture of its leaves, and every operation does to that
mixture what it is meant to do."""
import math

import history
import ops
import ref
import rng as rng_
import shrinkers
import worlds

RUNS = {'quick': 1200, 'thorough': 60000}
STAGES = 2
RULE = ('one evaluation = one history of up to 25 operations (conditioning, pruning, copying, storing and reloading, reweighting, '
        'relearning, queries, rejected and interrupted operations, a restart in a differently laid out process) over a pool of '
        'live models, after each of which the models concerned are compared with the reference model; distinct by (history, '
        'data); non-trivial = at least one derived or changed model was compared')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas'],
    'simulated': ['order of operations', 'asynchronous exceptions', 'rejected operations', 'process restarts with other hash seed and layout'],
    'reference': ['sim/ref.py: mixture of products of univariate distributions, read from the parameters of the leaves'],
}
ASSUMPTIONS = ['how well the learned leaves represent the data is not judged',
               'evidence with a probability below 1e-6 and single values of continuous variables are not judged']
TOL = 1e-6
TINY = 1e-6


def gen(rng, idx):
    plan = history.gen_history(rng, singletons=False)
    w = plan['world']
    plan['queries'] = [worlds.gen_evidence(rng, w, p=.4, singletons=False) for _ in range(3)]
    plan['mseed'] = rng.randrange(1 << 30)
    return plan


class Bad(Exception):

    def __init__(self, kind, msg, site=None):
        super().__init__(msg)
        self.v = {'kind': kind, 'msg': msg, 'site': site}


def near(a, b, tol=TOL, scale=1.):
    return a == b or (not math.isnan(a) and abs(a - b) <= tol * max(scale, abs(b)))


def event(r, m, e, cls=None):
    """(plain event, object to pass) or None if the model rejects its form"""
    try:
        x = worlds.evidence(m, e)
        b = m.bind(x) if isinstance(x, dict) else x
        a = b.value_assignment() if hasattr(b, 'value_assignment') else b
        return r.event(a), x
    except Exception:
        return None


def singular(r, ev):
    return any(k in r.num and any(a == b for a, b, _, _ in s) for k, s in ev.items())


def same_dist(v, lib, want_F, want_table, kn):
    """compare a distribution of the library with the reference"""
    if v.numeric:
        d = ref.Num(lib)
        for x in ref.points(d.low, kn):
            if not near(d.F(x), want_F(x)):
                return 'P(%s <= %r) is %r, should be %r' % (v.name, x, d.F(x), want_F(x))
    else:
        d = ref.Disc(lib)
        t = want_table()
        for k in set(d.p) | set(t):
            if not near(d.p.get(k, 0.), t.get(k, 0.)):
                return 'P(%s = %r) is %r, should be %r' % (v.name, k, d.p.get(k, 0.), t.get(k, 0.))
    return None


def answers(m, plan, env, who):
    try:
        _answers(m, plan, env, who)
    except Bad:
        raise
    except Exception as e:
        import traceback
        at = [f.name for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(env.prefix)]
        if not at:
            raise
        raise Bad('failed', '%s: %s in %s: %s' % (who, type(e).__name__, at[0], str(e)[:200]), '%s %s' % (at[0], type(e).__name__))


def _answers(m, plan, env, who):
    """the answers of m against those of the reference model"""
    r = ref.Model(m)
    w = plan['world']
    evs = [(None, ({}, {}))] + [(e, event(r, m, e)) for e in plan['evs'][:3]]
    qs = [(e, event(r, m, e)) for e in plan['queries']]
    for e, x in evs:
        if x is None or singular(r, x[0]):
            continue
        plain, obj = x
        mix = ref.Mixture(r, plain)
        pe = mix.mass
        if 0 < pe < TINY:
            continue
        env.count('probe:evidence')
        for q, y in qs:
            if y is None or singular(r, y[0]):
                continue
            env.count('probe:infer')
            got = m.infer(y[1], obj, fail_on_unsatisfiability=False)
            want = r.infer(y[0], plain)
            if (got is None) != (want is None):
                raise Bad('infer', '%s: P(%s | %s) is %r, should be %r' % (who, q['map'], e and e['map'], got, want), 'infer')
            if got is not None and not near(float(got), want):
                raise Bad('infer', '%s: P(%s | %s) is %r, should be %r' % (who, q['map'], e and e['map'], got, want), 'infer')
        post = m.posterior(evidence=obj, fail_on_unsatisfiability=False)
        env.count('probe:posterior')
        if (post is None) != (pe <= 0):
            raise Bad('posterior', '%s: posterior under %s is %s, the evidence has probability %r' % (who, e and e['map'], post and 'given', pe), 'posterior')
        if post is None:
            continue
        if {v.name for v in post} != {v.name for v in m.variables}:
            raise Bad('posterior', '%s: posterior of %s under %s' % (who, [v.name for v in post], e and e['map']), 'posterior')
        for v in m.variables:
            d = same_dist(v, post[v], lambda x: mix.F(v.name, x), lambda: mix.table(v.name), mix.knots(v.name) if v.numeric else ())
            if d:
                raise Bad('posterior', '%s, given %s: %s' % (who, e and e['map'], d), 'posterior')
        for v in m.variables:
            dist_api(v, post[v], plan, env, '%s, posterior given %s' % (who, e and e['map']))
        env.count('probe:expectation')
        exp = m.expectation([v for v in m.variables if v.numeric or v.integer], obj, fail_on_unsatisfiability=False)
        for v in m.variables:
            if v.numeric or v.integer:
                want = mix.mean(v.name) if v.numeric else sum(v.domain.labels[k] * p for k, p in mix.table(v.name).items())
                scale = max([1.] + [abs(x) for x in mix.knots(v.name) if not math.isinf(x)]) if v.numeric else 1.
                got = float(exp[v])
                if v.numeric:
                    scale *= abs(float(v.domain.labels[1.]) - float(v.domain.labels[0.]))
                    want = float(v.domain.labels[want])
                if not near(got, want, 1e-5, scale):
                    raise Bad('expectation', '%s: E(%s | %s) is %r, should be %r' % (who, v.name, e and e['map'], got, want), 'expectation')
        moments(m, plan, env, who, e, obj, mix)
        if plain:
            ids = sorted(l.idx for l in m.apply(obj))
            want = [i for i, _, path, _ in r.leaves if all(r.meet(k, plain[k], path[k]) for k in plain if k in path)]
            # leaves whose path excludes the event only in combination may be among them
            if not set(want) <= set(ids):
                raise Bad('apply', '%s: leaves %s apply to %s, should be %s' % (who, ids, e['map'], want), 'apply')
            if hasattr(obj, 'value_assignment') or type(obj).__name__ == 'ValueAssignment':
                consistent(m, r, plain, obj.value_assignment() if hasattr(obj, 'value_assignment') else obj, env, who)
    encoded(m, r, plan, env, who)
    # complete assignments: the leaf that applies, and the density
    names = [c['name'] for c in w['cols']]
    for row in w['rows'][:3]:
        vals, ok = {}, True
        try:
            asg = m.bind({n: row[i] for i, n in enumerate(names)}, allow_singular_values=True)
            va = asg.value_assignment()
        except Exception:
            continue
        for v, s in va.items():
            vals[v.name] = r.plain(v, s)
        consistent(m, r, vals, va, env, who)
        home = [l[0] for l in r.leaves if all(r.meet(k, vals[k], l[2][k]) for k in l[2])]
        if len(home) == 1:
            env.count('probe:encode')
            got = int(m.encode(worlds.objects([row], 1, len(row)))[0])
            if got != home[0]:
                raise Bad('encode', '%s: %s is said to belong to leaf %s, it belongs to %s' % (who, row, got, home[0]), 'encode')
        want = 0.
        for i, p, path, dists in r.leaves:
            if any(not r.meet(k, vals[k], path[k]) for k in path if k in vals):
                continue
            for k, s in vals.items():
                if k in r.num:
                    x = s[0][0]
                    f = density(dists[k], x)
                    if f is None:
                        ok = False
                        break
                    p *= f
                else:
                    p *= dists[k].mass(s)
            want += p
        if not ok:
            continue
        env.count('probe:pdf')
        got = float(m.pdf(asg))
        if not near(got, want, 1e-6, 1e-9):
            raise Bad('pdf', '%s: density of %s is %r, should be %r' % (who, row, got, want), 'pdf')
    likelihoods(m, r, plan, env, who)


def consistent(m, r, plain, va, env, who):
    """leaves whose path admits an assignment of values"""
    env.count('probe:consistent')
    got = sorted(i for i, l in m.leaves.items() if l.path_consistent_with(va))
    want = sorted(i for i, _, path, _ in r.leaves if all(r.meet(k, plain[k], path[k]) for k in plain if k in path))
    if got != want:
        raise Bad('consistent', '%s: the paths of %s are said to admit %s, those of %s do' % (who, got, plain, want), 'consistent')


def encoded(m, r, plan, env, who):
    """the leaves complete rows belong to; some rows lie on the bounds of leaves"""
    g = rng_.stream(plan.get('mseed', 0), 'encode')
    w = plan['world']
    by = {v.name: v for v in m.variables}
    rows = [list(x) for x in g.sample(w['rows'], min(8, len(w['rows'])))]
    at = {c['name']: i for i, c in enumerate(w['cols'])}
    bounds = sorted({(k, b) for _, _, path, _ in r.leaves for k in path if k in r.num for iv in path[k] for b in iv[:2] if not math.isinf(b)})
    for k, b in g.sample(bounds, min(4, len(bounds))):
        x = float(by[k].domain.labels[b])
        if float(by[k].domain.values[x]) == b:
            rows.append(list(g.choice(rows)))
            rows[-1][at[k]] = x
    env.count('probe:encode')
    got = m.encode(worlds.objects(rows, len(rows), len(w['cols'])))
    for row, i in zip(rows, got):
        vals = {}
        for k, v in by.items():
            x = v.domain.values[row[at[k]]]
            vals[k] = ((float(x), float(x), True, True),) if v.numeric else {x}
        home = [l[0] for l in r.leaves if all(r.meet(k, vals[k], l[2][k]) for k in l[2])]
        if len(home) == 1 and int(i) != home[0]:
            raise Bad('encode', '%s: %s is said to belong to leaf %d, it belongs to %s' % (who, row, int(i), home[0]), 'encode')
        if len(home) == 1:
            va = type(m.bind({}).value_assignment())([(v, float(v.domain.values[row[at[k]]]) if v.numeric else {v.domain.values[row[at[k]]]}) for k, v in by.items()],
                                                     variables=m.variables)
            consistent(m, r, vals, va, env, who)


def likelihoods(m, r, plan, env, who):
    """likelihoods of a batch of rows that lie between those of the data"""
    g = rng_.stream(plan.get('mseed', 0), 'likelihood')
    w = plan['world']
    cols = w['cols']
    rows = []
    for _ in range(4):
        a, b = g.choice(w['rows']), g.choice(w['rows'])
        t = g.choice([.37, .61])
        rows.append([a[i] * t + b[i] * (1 - t) if c['kind'] in ('num', 'snum') else a[i] for i, c in enumerate(cols)])
    by = {v.name: v for v in m.variables}
    want = []
    for row in rows:
        total = 0.
        for i, p, path, dists in r.leaves:
            for x, c in zip(row, cols):
                v = by[c['name']]
                f = density(dists[v.name], float(v.domain.values[x])) if v.numeric else dists[v.name].mass({v.domain.values[x]})
                if f is None or math.isinf(f):
                    total = None
                    break
                p *= f
            if total is None:
                break
            total += p
        want.append(total)
    env.count('probe:likelihood')
    got = m.likelihood(worlds.dataframe(w, rows) if g.random() < .5 else worlds.objects(rows, len(rows), len(cols)))
    for row, x, y in zip(rows, got, want):
        if y is not None and not near(float(x), y, 1e-6, 1e-9):
            raise Bad('likelihood', '%s: likelihood of %s is %r, should be %r' % (who, row, float(x), y), 'likelihood')


def dist_api(v, lib, plan, env, who):
    """the methods of a distribution against its parameters"""
    from jpt.base.intervals import ContinuousSet, RealSet
    g = rng_.stream(plan.get('mseed', 0), 'dist', v.name)
    env.count('probe:distribution')
    if v.numeric:
        d = ref.Num(lib)
        pts = ref.points(d.low)
        if len(pts) < 3:
            return
        label = lambda k: float(v.domain.labels[k])
        a, b, c, e = sorted(g.choice(pts) for _ in range(4))
        scale = max([1.] + [abs(label(x)) for x in d.low if not math.isinf(x)])
        checks = [('p', [label(a), label(b)], lib.p(ContinuousSet(label(a), label(b))), d.iv((a, b, True, True)), 1.)]
        if b < c:
            checks.append(('p', [[label(a), label(b)], [label(c), label(e)]],
                           lib.p(RealSet([ContinuousSet(label(a), label(b)), ContinuousSet(label(c), label(e))])),
                           d.iv((a, b, True, True)) + d.iv((c, e, True, True)), 1.))
        mean = ref.num_moment(d, None, 1, 0., label)
        checks.append(('expectation', None, lib.expectation(), mean, scale))
        checks.append(('variance', None, lib.variance(), ref.num_moment(d, None, 2, mean, label), scale ** 2))
    else:
        d = ref.Disc(lib)
        dom = list(d.p)
        sub = g.sample(dom, g.randint(1, len(dom)))
        checks = [('p', sub, lib.p({v.domain.labels[k] for k in sub}), d.mass(sub), 1.),
                  ('p', sub[0], lib.p(v.domain.labels[sub[0]]), d.mass(sub[:1]), 1.)]
        if v.integer:
            mean = sum(v.domain.labels[k] * q for k, q in d.p.items())
            scale = max([1.] + [abs(v.domain.labels[k]) for k in dom])
            checks.append(('expectation', None, lib.expectation(), mean, scale))
            checks.append(('variance', None, lib.variance(), sum((v.domain.labels[k] - mean) ** 2 * q for k, q in d.p.items()), scale ** 2))
    for what, arg, got, want, scale in checks:
        if not near(float(got), want, 1e-5, scale):
            raise Bad('distribution', '%s: %s of %s%s is %r, should be %r' % (who, what, v.name, '' if arg is None else ' in %s' % (arg,), float(got), want),
                      '%s %s' % (what, type(lib).__name__))


def moments(m, plan, env, who, e, obj, mix):
    """moments around constants given in the space of the labels, in that of the values, or not at all"""
    from jpt.variables import LabelAssignment
    r = rng_.stream(plan.get('mseed', 0), 'moment')
    order = r.choice([1, 2, 2, 3])
    vs = [v for v in m.variables if v.numeric or v.integer]
    center = {}
    for v in vs:
        x = r.choice(plan['world']['rows'])[[c['name'] for c in plan['world']['cols']].index(v.name)]
        if r.random() < .7:
            center[v] = r.choice([x, x, 0]) if v.numeric else x
    how = r.choice(['dict', 'labels', 'values'])
    arg = center if how == 'dict' else LabelAssignment(center.items())
    if how == 'values':
        arg = arg.value_assignment()
    env.count('probe:moment')
    got = m.moment(order, arg, obj)
    for v in vs:
        c = float(center.get(v, 0.))
        label = lambda k: float(v.domain.labels[k])
        want = mix.moment(v.name, order, c, label)
        scale = max([1.] + [abs(label(x) - c) for x in (mix.knots(v.name) if v.numeric else mix.table(v.name)) if not math.isinf(x)]) ** order
        if not near(float(got[v]), want, 1e-5, scale):
            raise Bad('moment', '%s: moment %s of %s around %r (%s) given %s is %r, should be %r' % (
                who, order, v.name, c, how, e and e['map'], float(got[v]), want), 'moment')


def kind(plan, v):
    return next(c['kind'] for c in plan['world']['cols'] if c['name'] == v.name)


def density(d, x):
    """slope at x, None at knots"""
    import bisect
    for k in d.low[1:]:
        if abs(k - x) <= 1e-9 * max(1., abs(x)):
            return None
    return d.f[bisect.bisect_right(d.low, x) - 1][0]


def leafwise(m, env, who, want):
    """leaves of m against {leaf: (prior, {name: (F, table, knots)})}"""
    got = {i: l for i, l in m.leaves.items() if i in want or l.prior > TINY}
    if set(got) != set(want):
        raise Bad('leaves', '%s: leaves %s, should be %s' % (who, sorted(got), sorted(want)), 'leaves')
    for i, l in sorted(got.items()):
        if not near(float(l.prior), want[i][0]):
            raise Bad('prior', '%s: prior of leaf %s is %r, should be %r' % (who, i, float(l.prior), want[i][0]), 'prior')
        for v in m.variables:
            d = same_dist(v, l.distributions[v], *want[i][1][v.name])
            if d:
                raise Bad('leaf', '%s, leaf %s: %s' % (who, i, d), 'leaf')


def same(r):
    """what an unchanged model has in its leaves"""
    return {i: (p, {k: entry(d, None) for k, d in dists.items()}) for i, p, path, dists in r.leaves}


def entry(d, s):
    if isinstance(d, ref.Num):
        if s is None:
            return d.F, None, d.low
        z = d.mass(s)
        return (lambda x: ref.num_below(d, s, x) / z), None, d.low + ref.knots(s)
    z = 1. if s is None else d.mass(s)
    return None, (lambda: {k: q / z for k, q in d.p.items() if s is None or k in s}), ()


def judge(before, m, st, plan, env, who, res):
    """the derivation st applied to a model with reference `before` gave res"""
    k = st[0]
    if k in ('copy', 'reload'):
        leafwise(res, env, who, same(before))
    elif k == 'cond':
        x = event(before, m, plan['evs'][st[2] % len(plan['evs'])])
        if x is None or singular(before, x[0]):
            return
        masses = before.leaf_masses(x[0])
        # leaves do not give mass to anything outside of their path
        pe = sum(masses)
        if pe == 0:
            if res is not None:
                raise Bad('impossible', '%s: there is a model although the evidence has probability 0' % who, 'cond')
            return
        if pe < TINY:
            return
        if res is None:
            raise Bad('possible', '%s: no model although the evidence has probability %r' % (who, pe), 'cond')
        if any(0 < p < 1e-9 for p in masses):
            return
        leafwise(res, env, who, {
            i: (p / pe, {n: entry(d, x[0].get(n)) for n, d in dists.items()})
            for p, (i, _, path, dists) in zip(masses, before.leaves) if p > 0})
    elif k == 'prune':
        after = ref.Model(res)
        if len(after.leaves) > len(before.leaves):
            raise Bad('prune', '%s: %d leaves became %d' % (who, len(before.leaves), len(after.leaves)), 'prune')
        a, b = ref.Mixture(before, {}), ref.Mixture(after, {})
        for v in m.variables:
            if v.numeric:
                for x in ref.points(a.knots(v.name), b.knots(v.name)):
                    if not near(a.F(v.name, x), b.F(v.name, x), 1e-5):
                        raise Bad('prune', '%s: P(%s <= %r) changes from %r to %r' % (who, v.name, x, a.F(v.name, x), b.F(v.name, x)), 'prune')
            else:
                s, t = a.table(v.name), b.table(v.name)
                for x in set(s) | set(t):
                    if not near(s.get(x, 0.), t.get(x, 0.)):
                        raise Bad('prune', '%s: P(%s = %r) changes from %r to %r' % (who, v.name, x, s.get(x, 0.), t.get(x, 0.)), 'prune')


def run(plan, env, stage, carry):
    w = history.World(plan, env)
    out = {'sets': {}, 'stop': False}
    start = 0
    touched = 0
    if stage == 0:
        w.add(env.build(plan['world']))
    else:
        w.thaw(carry['pool'])
        start = carry['at']
        touched = carry['touched']
    try:
        if stage == 0:
            answers(w.pool[0], plan, env, 'learned model')
        else:
            for j, m in enumerate(w.pool):
                got = ref.Model(m)
                if [sig(x) for x in got.leaves] != carry['sigs'][j]:
                    raise Bad('restart', 'model %d is not the same after the restart' % w.ids[j], 'restart')
            answers(w.pool[-1], plan, env, 'model %d after the restart' % w.ids[-1])
        for n in range(start, len(plan['steps'])):
            st = plan['steps'][n]
            k = st[0]
            env.event('step', n, k)
            env.count('op:' + k)
            if k == 'restart':
                if stage == 0:
                    try:
                        pool = w.freeze()
                    except Exception as e:
                        raise env.Skip('storing: %s' % type(e).__name__)
                    out['carry'] = {'pool': pool, 'at': n + 1, 'touched': touched,
                                    'sigs': [[sig(x) for x in ref.Model(m).leaves] for m in w.pool]}
                    return out
                continue
            j = st[1] % len(w.pool)
            m = w.pool[j]
            who = 'step %d (%s of model %d)' % (n, k, w.ids[j])
            before = ref.Model(m)
            if k in ('cond', 'prune', 'copy', 'reload'):
                try:
                    res = w.derive(m, st)
                except Exception as e:
                    if k == 'cond':
                        x = event(before, m, plan['evs'][st[2] % len(plan['evs'])])
                        if x is None or singular(before, x[0]) or before.p(x[0]) < TINY:
                            continue
                    raise Bad('failed', '%s: %s: %s' % (who, type(e).__name__, str(e)[:200]), k + ' ' + type(e).__name__)
                touched += 1
                judge(before, m, st, plan, env, who, res)
                if res is not None:
                    w.add(res)
                    answers(res, plan, env, who)
            elif k == 'mlp':
                ws = w.weights(m, st[2])
                total = sum(p * ws[i] for i, p, _, _ in before.leaves)
                try:
                    m.multiply_by_leaf_prior(ws)
                except Exception as e:
                    if total > 1e-9:
                        raise Bad('failed', '%s: %s: %s' % (who, type(e).__name__, str(e)[:200]), 'mlp')
                    leafwise(m, env, who + ', rejected', same(before))
                    continue
                if total <= 1e-9:
                    leafwise(m, env, who, same(before)) if total == 0 else None
                    continue
                touched += 1
                want = same(before)
                leafwise(m, env, who, {i: (p * ws[i] / total, d) for i, (p, d) in want.items()})
                answers(m, plan, env, who)
            elif k == 'relearn':
                try:
                    worlds.learn(plan['world'], model=m, rows=w.rows(st[2]))
                except Exception:
                    del w.pool[j], w.ids[j]              # learning is not this property's business
                    if not w.pool:
                        break
                    continue
                touched += 1
                answers(m, plan, env, who)
            elif k == 'fail':
                raised = w.failing(m, st[2])
                env.count('fault:' + st[2])
                if raised:
                    leafwise(m, env, who + ' ' + st[2], same(before))
            elif k == 'query':
                c = ops.Client(m, plan['world'], plan['evs'])
                ops.outcome(c, st[2], env.canon)
                leafwise(m, env, who + ' ' + st[2]['k'], same(before))
            elif k == 'intr':
                what = st[2]
                if what[0] == 'relearn':
                    fn = lambda: worlds.learn(plan['world'], model=m, rows=w.rows(what[2]))
                elif what[0] == 'query':
                    try:
                        c = ops.Client(m, plan['world'], plan['evs'])
                    except Exception:
                        continue
                    fn = lambda: ops.outcome(c, what[2], env.canon)
                else:
                    fn = lambda: w.derive(m, what)
                try:
                    w.interrupted(fn, st[3], st[4], st[5])
                except Exception:
                    if what[0] == 'relearn':
                        del w.pool[j], w.ids[j]
                        if not w.pool:
                            break
                        continue
                if what[0] == 'relearn':                 # what is left of it can only be learnt again
                    try:
                        worlds.learn(plan['world'], model=m, rows=w.rows(what[2]))
                    except Exception:
                        del w.pool[j], w.ids[j]
                        if not w.pool:
                            break
                        continue
                    answers(m, plan, env, who)
                else:
                    leafwise(m, env, who + ' interrupted', same(before))
        for j, m in enumerate(w.pool):
            answers(m, plan, env, 'model %d in the end' % w.ids[j])
    except Bad as b:
        out['violation'] = b.v
        return out
    out['stop'] = True
    out['sets']['distinct'] = [rng_.derive(repr(plan['steps']), repr(plan['world']['rows']))] if touched else []
    out['sets']['histories'] = ['-'.join(s[0] for s in plan['steps'][:6])]
    out['sample'] = {'steps': [s[:2] + [s[2] if s[0] != 'query' else s[2]['k']] if len(s) > 2 else s for s in plan['steps'][:12]], 'models': w.next_id}
    return out


def sig(leaf):
    i, p, path, dists = leaf
    return '%s %.9g %s' % (i, p, sorted((k, [('%.9g' % a, '%.9g' % b) for a, b in zip(d.low, [c for _, c in d.f])] if isinstance(d, ref.Num) else
                                      [(v, '%.9g' % q) for v, q in sorted(d.p.items())]) for k, d in dists.items()))


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['steps'], 0)
    yield from shrinkers.world(plan)
    for key in ('evs', 'queries'):
        for i, e in enumerate(plan[key]):
            for k in list(e['map']):
                yield shrinkers._with(plan, [key, i, 'map'], {a: b for a, b in e['map'].items() if a != k})
