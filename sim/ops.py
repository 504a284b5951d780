"""The queries a client of a model can issue, as data."""
import io
import itertools

import worlds


def gen_op(rng, w, n_ev, kinds=None):
    k = rng.choice(kinds or QUERY_KINDS)
    op = {'k': k}
    ev = lambda: rng.randrange(n_ev) if n_ev and rng.random() < .8 else None
    names = [c['name'] for c in w['cols']]
    row = lambda: rng.choice(w['rows'])
    if k == 'infer':
        op.update(q=rng.randrange(n_ev), e=ev(), fail=rng.random() < .5)
    elif k in ('posterior', 'expectation'):
        op.update(v=rng.choice([None, rng.sample(names, rng.randint(1, len(names)))]), e=ev(), fail=rng.random() < .5)
    elif k == 'mpe':
        op.update(e=ev(), fail=rng.random() < .5)
    elif k == 'kmpe':
        op.update(e=ev(), fail=rng.random() < .5, n=rng.choice([0, 1, 2, 5]), take=rng.choice([1, 2, 4]))
    elif k == 'cond':
        op.update(e=ev(), fail=rng.random() < .5)
    elif k == 'pdf':
        op.update(r=row(), vars=list(names) if rng.random() < .6 else rng.sample(names, rng.randint(1, len(names))))
    elif k in ('likelihood', 'encode'):
        op.update(rows=[row() for _ in range(rng.randint(1, 4))])
    elif k == 'apply':
        op.update(e=rng.randrange(n_ev) if n_ev else None, take=rng.choice([1, 2, 100]))
    elif k == 'moment':
        op.update(e=ev(), order=rng.choice([1, 2, 3]), fail=rng.random() < .5,
                  c=rng.random() < .4)
    elif k == 'prune':
        op.update(th=rng.choice([.05, .2, .5, .9]), approx=rng.choice([None, None, .1]))
    elif k == 'dumps':
        op.update(p=rng.choice(['pickle', 'json']))
    elif k in ('cleaf', 'leafp'):
        op.update(l=rng.randrange(99), e=rng.randrange(n_ev) if n_ev else None)
    elif k == 'dist':
        op.update(l=rng.choice([None, rng.randrange(99)]), v=rng.choice(names),
                  f=rng.choice(['mpe', 'k_mpe', 'copy', 'json', 'expectation', 'moment', 'str', 'p', 'crop',
                                'merge', 'params', 'sorted', 'items', 'pdf', 'cdf', 'ppf', 'jaccard', 'eq']),
                  x=None)
        op['x'] = worlds.gen_value(rng, w, names.index(op['v']))
    elif k == 'reverse':
        op.update(q=rng.randrange(n_ev) if n_ev else None, c=rng.choice([.05, .3]))
    elif k == 'sample':
        op.update(n=rng.choice([1, 3, 10]), s=rng.randrange(1000))
    return op


QUERY_KINDS = (
    ['infer'] * 5 + ['posterior'] * 5 + ['expectation'] * 3 + ['mpe'] * 3 + ['kmpe'] * 2 + ['cond'] * 3 +
    ['pdf'] * 2 + ['likelihood'] * 2 + ['encode', 'apply', 'apply', 'moment', 'moment', 'prune', 'copy', 'tojson',
                                      'dumps', 'dumps', 'cleaf', 'leafp', 'leafmpe', 'reverse', 'show', 'hyper', 'eq'] +
    ['dist'] * 4
)


class Client:
    """one user of the model: executes operations and keeps the query objects it passes"""

    def __init__(self, model, w, evs, canon=None):
        self.m = model
        self.w = w
        self.canon = canon
        self.passed = []
        self.evs = [self.given(worlds.evidence(model, e)) for e in evs]

    def ev(self, i):
        return None if i is None else self.evs[i % len(self.evs)] if self.evs else None

    def run(self, op):
        return getattr(self, 'op_' + op['k'])(op)

    def given(self, x):
        """`x` is handed to the library by its caller"""
        if self.canon is not None:
            self.passed.append((x, self.canon(x)))
        return x

    def tampered(self, diff):
        """first difference in anything that was handed to the library, which must only read it"""
        for x, before in self.passed:
            d = diff(before, self.canon(x))
            if d:
                return '%s: %s' % (type(x).__name__, d)
        return None

    # -- queries -------------------------------------------------------------------------

    def op_infer(self, o):
        return self.m.infer(self.ev(o['q']), self.ev(o['e']), fail_on_unsatisfiability=o['fail'])

    def op_posterior(self, o):
        return self.m.posterior(o['v'] and self.given(list(o['v'])), self.ev(o['e']), fail_on_unsatisfiability=o['fail'])

    def op_expectation(self, o):
        return self.m.expectation(o['v'] and self.given(list(o['v'])), self.ev(o['e']), fail_on_unsatisfiability=o['fail'])

    def op_mpe(self, o):
        return self.m.mpe(self.ev(o['e']), fail_on_unsatisfiability=o['fail'])

    def op_kmpe(self, o):
        gen = self.m.kmpe(self.ev(o['e']), fail_on_unsatisfiability=o['fail'], k=o['n'])
        return None if gen is None else list(itertools.islice(gen, o['take']))

    def op_cond(self, o):
        return self.m.conditional_jpt(self.ev(o['e']), fail_on_unsatisfiability=o['fail'])

    def op_pdf(self, o):
        names = [c['name'] for c in self.w['cols']]
        return self.m.pdf(self.given(self.m.bind({n: o['r'][names.index(n)] for n in o['vars']},
                                           allow_singular_values=len(o['vars']) == len(names))))

    def op_likelihood(self, o):
        return self.m.likelihood(self.given(worlds.dataframe(self.w, o['rows'])))

    def op_encode(self, o):
        return self.m.encode(self.given([list(r) for r in o['rows']]))

    def op_apply(self, o):
        return [l.idx for l in itertools.islice(self.m.apply(self.ev(o['e']) or {}), o['take'])]

    def op_moment(self, o):
        center = None
        if o['c']:
            center = self.m.bind({
                c['name']: self.w['rows'][0][i]
                for i, c in enumerate(self.w['cols']) if c['kind'] in ('num',)
            }, allow_singular_values=True)
            self.given(center)
        e = self.ev(o['e'])
        return self.m.moment(o['order'], center, e, fail_on_unsatisfiability=o['fail'])

    def op_prune(self, o):
        return self.m.prune(o['th'], o['approx'])

    def op_copy(self, o):
        return self.m.copy()

    def op_tojson(self, o):
        return self.m.to_json()

    def op_dumps(self, o):
        f = io.StringIO() if o['p'] == 'json' else io.BytesIO()
        self.m.save(f, protocol=o['p'])
        f.seek(0)
        return type(self.m).load(f, protocol=o['p'])

    def leaf(self, i):
        ids = sorted(self.m.leaves)
        return self.m.leaves[ids[i % len(ids)]]

    def op_cleaf(self, o):
        e = self.ev(o['e'])
        if not hasattr(e, 'value_assignment') and isinstance(e, dict):
            e = self.m.bind(e)
        return self.leaf(o['l']).conditional_leaf(e) if e is not None else None

    def op_leafp(self, o):
        e = self.ev(o['e'])
        if isinstance(e, dict):
            e = self.m.bind(e)
        l = self.leaf(o['l'])
        return [l.probability(e), l.applies(e.value_assignment() if hasattr(e, 'value_assignment') else e),
                l.depth(), l.path] if e is not None else None

    def op_leafmpe(self, o):
        return [l.mpe(self.m.minimal_distances) for _, l in sorted(self.m.leaves.items())]

    def op_reverse(self, o):
        e = self.ev(o['q'])
        return [[dict(c), l.idx] for c, l in self.m.reverse(e if e is not None else {}, o['c'])]

    def op_show(self, o):
        return [str(self.m), repr(self.m), self.m.depth(), self.m.total_samples(), self.m.number_of_parameters()]

    def op_hyper(self, o):
        return self.m.get_hyperparameters_dict()

    def op_eq(self, o):
        return [self.m == self.m.copy(), len(self.m.allnodes)]

    def op_sample(self, o):
        import numpy as np
        import random
        np.random.seed(o['s'])
        random.seed(o['s'])
        return self.m.sample(o['n'])

    def op_seq(self, o):
        es = [{} if i is None else self.ev(i) for i in o['steps']]
        return self.seq.independent_marginals(self.given(es))

    def op_dist(self, o):
        var = self.m.varnames[o['v']]
        d = self.m.priors[var] if o['l'] is None else self.leaf(o['l']).distributions[var]
        f = o['f']
        x = worlds.value(o['x'])
        if var.symbolic or var.integer:
            if isinstance(x, list):
                x = set(x)
        elif isinstance(x, list):
            from jpt.base.intervals import ContinuousSet
            x = ContinuousSet(*x)
        if f == 'mpe':
            return d.mpe()
        if f == 'k_mpe':
            return list(d.k_mpe())
        if f == 'copy':
            return d.copy()
        if f == 'json':
            return d.to_json()
        if f == 'expectation':
            return d.expectation()
        if f == 'moment':
            return d.moment(2, 0) if hasattr(d, 'moment') else None
        if f == 'str':
            return str(d)
        if f == 'p':
            return d.p(x)
        if f == 'crop':
            return d.crop(x)
        if f == 'merge':
            ds = [self.leaf(i).distributions[var] for i in range(min(3, len(self.m.leaves)))]
            return type(d).merge(ds, [1. / len(ds)] * len(ds))
        if f == 'params':
            return d.number_of_parameters()
        if f == 'sorted':
            return list(d.sorted()) if hasattr(d, 'sorted') else None
        if f == 'items':
            return list(d.items()) if hasattr(d, 'items') else None
        if f == 'jaccard':
            ds = [self.leaf(i).distributions[var] for i in range(2)]
            return type(d).jaccard_similarity(*ds)
        if f == 'eq':
            return [d == d.copy()]
        if var.numeric:
            q = {'pdf': d.pdf, 'cdf': d.cdf, 'ppf': d.ppf}[f]
            pts = [.1, .5, .9] if f == 'ppf' else sorted({r[[c['name'] for c in self.w['cols']].index(o['v'])] for r in self.w['rows']})[:5]
            return [q.eval(float(p)) for p in pts]
        return list(d.probabilities) if hasattr(d, 'probabilities') else None


def outcome(client, op, canon):
    """canonical answer of `op`, an exception being an answer as well"""
    try:
        return canon(client.run(op))
    except Exception as e:
        return canon(e)


PROBES = ['infer', 'posterior', 'mpe', 'cond', 'pdf', 'likelihood', 'show', 'leafmpe']


def probe_ops(rng, w, n_ev, n=6):
    return [gen_op(rng, w, n_ev, [k]) for k in rng.sample(PROBES, min(n, len(PROBES)))]
