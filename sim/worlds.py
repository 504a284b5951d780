"""Generation and construction of simulated models ("worlds").

A world is a JSON value holding the training data itself, the variables, the
hyper-parameters and the way in which the model under test was obtained, so a replay
file is self-contained.
"""
import io
import itertools

SYM = [
    ['a', 'b', 'c', 'd', 'e'],
    ['red', 'green', 'blue', 'yellow'],
    ['ä', 'ß', '日本', "q'uote", 'new\nline'],
    ['True', 'False', 'None', ''],
    ['x1', 'x2'],
]
WIDE_P = .15
WIDE = [
    [3, 1, 2, 10],
    [1.5, -2.5, 0., 100.25],
    ['s%d' % i for i in range(14)],
    ['only'],
]
NAMES = ['X', 'Y', 'Z', 'a b', 'größe', 'V.1', 'x', 'W', 'Alpha', 'S', 'col-5', 'q+1']


def gen_wide_column(rng, name, n, kind=None):
    """columns with unusual ranges: large and small numbers, constants, labels that are not strings, big domains"""
    kind = kind or rng.choice(['num', 'num', 'snum', 'sym', 'sym', 'bool', 'int', 'int'])
    col = {'name': name, 'kind': kind}
    if kind in ('num', 'snum'):
        scale, digits = rng.choice([(1e5, 0), (1e4, 2), (1e-3, 6), (1., 0)])
        shift = rng.choice([0, 0, 5, -3])
        shape = rng.choice(['normal', 'twice', 'constant', 'outlier', 'integers'])
        if shape == 'constant' and kind == 'snum':
            shape = 'twice'
        const = rng.choice([0., 1., -2.5])
        vals = []
        for r in range(n):
            if shape == 'normal':
                v = rng.gauss(0, 1)
            elif shape == 'twice':
                v = float(r % 3 == 0)
            elif shape == 'constant':
                v = const
            elif shape == 'outlier':
                v = 100. if r == 0 else rng.gauss(0, .1)
            else:
                v = float(rng.randrange(-20, 20))
            vals.append(round((v + shift) * scale, digits))
        col['precision'] = rng.choice([.01, .05, .2])
    elif kind == 'sym':
        labels = rng.choice(WIDE)
        vals = [rng.choice(labels[:1 + rng.randrange(len(labels))]) for _ in range(n)]
        col['labels'] = list(labels) if rng.random() < .5 else sorted(set(vals), key=vals.index)
    elif kind == 'bool':
        const = rng.choice([True, False, None])
        vals = [const if const is not None else r == 0 for r in range(n)]
    else:
        lo, k = rng.choice([(0, 1), (5, 1), (0, 40), (-20, 30), (1000, 3), (-7, 2)])
        vals = [lo + rng.randrange(k) for _ in range(n)]
        if rng.random() < .5:
            col['lmin'], col['lmax'] = lo, lo + k - 1
        else:
            col['lmin'], col['lmax'] = min(vals), max(vals)
    return col, vals


def gen_column(rng, name, n, kind=None):
    kind = kind or rng.choice(['num', 'num', 'snum', 'sym', 'sym', 'bool', 'int', 'int'])
    col = {'name': name, 'kind': kind}
    if kind in ('num', 'snum'):
        shape = rng.choice(['normal', 'uniform', 'grid', 'mix', 'mix', 'tail'])
        scale = rng.choice([1, 1, 10, .1, 1000])
        digits = rng.choice([1, 2, 3, 6])
        shift = rng.choice([0, 0, 5, -3])
        vals = []
        for _ in range(n):
            if shape == 'normal':
                v = rng.gauss(0, 1)
            elif shape == 'uniform':
                v = rng.uniform(-1, 1)
            elif shape == 'grid':
                v = rng.randrange(6) / 2
            elif shape == 'mix':
                v = rng.gauss(-2, .3) if rng.random() < .5 else rng.gauss(2, .5)
            else:
                v = rng.expovariate(1)
            vals.append(round((v + shift) * scale, digits))
        col['precision'] = rng.choice([.01, .05, .05, .2, .5])
        if rng.random() < .15:
            col['blur'] = rng.choice([.05, .2])
        if rng.random() < .1:
            col['max_std'] = rng.choice([.5, 2.])
    elif kind == 'sym':
        labels = rng.choice(SYM)
        labels = labels[:rng.randint(2, len(labels))]
        w = [rng.random() + .05 for _ in labels]
        vals = rng.choices(labels, w, k=n)
        # the domain may hold labels that never occur
        col['labels'] = list(labels) if rng.random() < .5 else sorted(set(vals), key=vals.index)
        if rng.random() < .1:
            col['inv'] = True
    elif kind == 'bool':
        p = rng.choice([.2, .5, .8])
        vals = [rng.random() < p for _ in range(n)]
    else:
        lo = rng.choice([0, 0, 1, -3, 10])
        k = rng.randint(2, 7)
        vals = [lo + min(int(rng.random() ** 1.5 * k), k - 1) for _ in range(n)]
        if rng.random() < .5:
            col['lmin'], col['lmax'] = lo, lo + k - 1
        else:
            col['lmin'], col['lmax'] = min(vals), max(vals)
    if rng.random() < .15:
        col['mii'] = rng.choice([.01, .1, .3])
    return col, vals


def correlate(rng, cols, data):
    """introduce dependencies between columns, so that trees split"""
    n = len(data[0])
    for i, c in enumerate(cols):
        if c['kind'] not in ('num', 'snum') or rng.random() < .3:
            continue
        j = rng.randrange(len(cols))
        if j == i:
            continue
        src = data[j]
        lv = {v: k for k, v in enumerate(sorted(set(src), key=repr))}
        step = rng.choice([1., 2., 4.])
        span = max(1e-9, max(data[i]) - min(data[i]))
        for r in range(n):
            data[i][r] = round(data[i][r] + step * span * lv[src[r]] / max(1, len(lv) - 1), 6)


def gen_world(rng, n=None, n_cols=None, derive_ok=True, kinds=None, deps=True, seqs=False):
    n = n or rng.choice([8, 15, 25, 25, 40, 40, 60, 60, 110])
    n_cols = n_cols or rng.choice([2, 3, 3, 4, 5])
    wide = rng.random() < WIDE_P
    names = rng.sample(NAMES, n_cols)
    cols, data = [], []
    for k, name in enumerate(names):
        gen = gen_wide_column if wide and rng.random() < .6 else gen_column
        c, v = gen(rng, name, n, kinds[k % len(kinds)] if kinds else None)
        cols.append(c)
        data.append(v)
    correlate(rng, cols, data)
    rows = [[data[c][r] for c in range(n_cols)] for r in range(n)]
    hyper = {
        'min_samples_leaf': rng.choice([1, 2, 3, 5, 5, 8, .1, .1, .2, .3, .9]),
        'min_impurity_improvement': rng.choice([None, None, None, .01, .05, .2]),
        'max_depth': rng.choice([None, None, None, 1, 2, 4]),
    }
    if rng.random() < .2:
        hyper['max_leaves'] = rng.choice([3, 10])
    if rng.random() < .35:
        t = rng.sample(names, rng.randint(1, n_cols - 1)) if n_cols > 1 else []
        hyper['targets'] = t
        if rng.random() < .3:
            hyper['features'] = [x for x in names if x not in t] or None
    if deps and rng.random() < .2 and 'targets' not in hyper:
        hyper['dependencies'] = {
            x: rng.sample(names, rng.randint(1, n_cols)) for x in names
        }
    w = {
        'cols': cols, 'rows': rows, 'hyper': hyper,
        'as': rng.choice(['df', 'df', 'rows', 'cols', 'nprows', 'npcols', 'data']),
        'keep': rng.random() < .15,
        'gaps': rng.random() < .8,
        'derive': [],
    }
    if rng.random() < .12:
        w['infer'] = {'scale_numeric_types': rng.random() < .5, 'precision': rng.choice([.05, .2]),
                      'min_impurity_improvement': rng.choice([None, .05]), 'blur': rng.choice([None, .1])}
        for i, c in enumerate(cols):
            if c['kind'] == 'sym':
                c['labels'] = list(dict.fromkeys(r[i] for r in rows))
            elif c['kind'] == 'int':
                c['lmin'], c['lmax'] = min(r[i] for r in rows), max(r[i] for r in rows)
    if derive_ok and rng.random() < .4:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < .3:
                w['derive'].append({'op': 'prune', 'th': rng.choice([.1, .3, .6])})
            elif k < .6:
                w['derive'].append({'op': 'cond', 'e': gen_evidence(rng, w, p=.4)})
            elif k < .8:
                w['derive'].append({'op': 'copy'})
            else:
                w['derive'].append({'op': 'reload', 'protocol': rng.choice(['pickle', 'json'])})
    return w


def gen_value(rng, w, i, singletons=True):
    c = w['cols'][i]
    vals = [r[i] for r in w['rows']]
    k = c['kind']
    if k in ('num', 'snum'):
        lo, hi = min(vals), max(vals)
        span = (hi - lo) or 1.
        r = rng.random()
        if singletons and r < .25:
            v = rng.choice(vals) if rng.random() < .8 else round(lo + rng.random() * span, 3)
            return ['n', v]
        if r < .3:
            return ['iv', hi + span, hi + 2 * span, 1, 1]          # impossible
        a, b = sorted([
            rng.choice(vals) if rng.random() < .5 else lo + (rng.random() * 1.4 - .2) * span
            for _ in range(2)
        ])
        if a == b:
            b = a + span / 3
        if r < .75:
            return ['iv', a, b, rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
        if r < .85:
            return ['list', a, b]
        m1, m2 = a + (b - a) / 3, a + 2 * (b - a) / 3
        return ['rs', [[a, m1], [m2, b]]]
    dom = domain(w, i)
    r = rng.random()
    if r < .4:
        return ['one', rng.choice(vals if rng.random() < .8 else dom)]
    return ['set', rng.sample(dom, rng.randint(1, len(dom)))]


def domain(w, i):
    c = w['cols'][i]
    if c['kind'] == 'sym':
        return c['labels']
    if c['kind'] == 'bool':
        return [False, True]
    return list(range(c['lmin'], c['lmax'] + 1))


def gen_evidence(rng, w, p=.4, singletons=True, form=None):
    e = {
        c['name']: gen_value(rng, w, i, singletons)
        for i, c in enumerate(w['cols']) if rng.random() < p
    }
    for c in w['cols']:
        v = e.get(c['name'])
        if v is None:
            if rng.random() < .06:
                e[c['name']] = ['none']                             # explicitly left open
        elif v[0] == 'set' and rng.random() < .25:
            e[c['name']] = ['rng', min(v[1]), max(v[1])] if c['kind'] == 'int' else ['lst', v[1]]
    return {'form': form or rng.choice(['dict', 'dict', 'dictv', 'label', 'label', 'value']), 'map': e}


# ---------------------------------------------------------------------------------------
# construction (these run the code under test)

def make_variables(w):
    from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable
    from jpt.distributions import Numeric, SymbolicType, NumericType, IntegerType, Bool
    res = []
    if w.get('infer'):
        from jpt.variables import infer_from_dataframe
        return infer_from_dataframe(dataframe(w), **w['infer'])
    for i, c in enumerate(w['cols']):
        k, name = c['kind'], c['name']
        if k in ('num', 'snum'):
            dom = Numeric if k == 'num' else NumericType(name + '_T', sorted({r[i] for r in w['rows']}))
            v = NumericVariable(
                name, dom,
                min_impurity_improvement=c.get('mii'), blur=c.get('blur'),
                max_std=c.get('max_std'), precision=c.get('precision'))
        elif k == 'sym':
            v = SymbolicVariable(
                name, SymbolicType(name + '_T', labels=list(c['labels'])),
                min_impurity_improvement=c.get('mii'),
                invert_impurity=c.get('inv'))
        elif k == 'bool':
            v = SymbolicVariable(name, Bool, min_impurity_improvement=c.get('mii'))
        else:
            v = IntegerVariable(
                name, IntegerType(name + '_T', c['lmin'], c['lmax']),
                min_impurity_improvement=c.get('mii'))
        res.append(v)
    return res


def dataframe(w, rows=None):
    import pandas as pd
    rows = w['rows'] if rows is None else rows
    return pd.DataFrame({
        c['name']: pd.Series(
            [r[i] for r in rows],
            dtype={'num': float, 'snum': float, 'sym': object, 'bool': bool, 'int': 'int64'}[c['kind']])
        for i, c in enumerate(w['cols'])
    }, columns=[c['name'] for c in w['cols']])


def unlearned(w, variables=None):
    from jpt.trees import JPT
    variables = variables or make_variables(w)
    h = dict(w['hyper'])
    deps = h.pop('dependencies', None)
    by = {v.name: v for v in variables}
    if deps is not None:
        h['dependencies'] = {by[k]: [by[x] for x in v] for k, v in deps.items()}
    return JPT(variables=variables, **{k: v for k, v in h.items() if v is not None})


def learn_args(w, rows=None):
    rows = w['rows'] if rows is None else rows
    if w['as'] == 'df':
        return {'data': dataframe(w, rows)}
    if w['as'] == 'rows':
        return {'rows': [list(r) for r in rows]}
    if w['as'] == 'data':
        return {'data': [list(r) for r in rows]}
    if w['as'] == 'nprows':
        return {'rows': objects(rows, len(rows), len(w['cols']))}
    cols = [[r[i] for r in rows] for i in range(len(w['cols']))]
    if w['as'] == 'npcols':
        return {'columns': objects(cols, len(w['cols']), len(rows))}
    return {'columns': cols}


def objects(rows, n, m):
    import numpy as np
    a = np.empty((n, m), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def learn(w, variables=None, model=None, rows=None):
    m = model if model is not None else unlearned(w, variables)
    m.learn(keep_samples=w['keep'], close_convex_gaps=w['gaps'], **learn_args(w, rows))
    return m


def derive(m, steps):
    from jpt.trees import JPT
    for s in steps:
        if s['op'] == 'prune':
            m = m.prune(s['th'])
        elif s['op'] == 'cond':
            try:
                c = m.conditional_jpt(evidence(m, s['e']), fail_on_unsatisfiability=False)
            except Exception:        # e.g. evidence the model does not support
                c = None
            m = c if c is not None else m
        elif s['op'] == 'copy':
            m = m.copy()
        elif s['op'] == 'reload':
            f = io.StringIO() if s['protocol'] == 'json' else io.BytesIO()
            m.save(f, protocol=s['protocol'])
            f.seek(0)
            m = JPT.load(f, protocol=s['protocol'])
    return m


def build(w):
    return derive(learn(w), w['derive'])


def value(spec):
    from jpt.base.intervals import ContinuousSet, RealSet
    k = spec[0]
    if k in ('n', 'one'):
        return spec[1]
    if k == 'iv':
        return ContinuousSet(spec[1], spec[2], spec[3], spec[4])
    if k in ('list', 'rng'):
        return [spec[1], spec[2]]
    if k == 'lst':
        return list(spec[1])
    if k == 'none':
        return None
    if k == 'rs':
        return RealSet([ContinuousSet(a, b) for a, b in spec[1]])
    if k == 'set':
        return set(spec[1])
    raise ValueError(k)


def evidence(m, e):
    if e is None:
        return None
    d = {k: value(v) for k, v in e['map'].items()}
    f = e['form']
    if f == 'dict':
        return d
    if f == 'dictv':
        return {m.varnames[k]: v for k, v in d.items()}
    b = m.bind(d)
    if f == 'label':
        return b
    return b.value_assignment()


def gen_schedule(rng):
    """parameters of a random schedule: uniform switches, rare ones, or ones that favour the events behind stores"""
    if rng.random() < .45:
        return {'opcodes': True, 'p': rng.choice([0, .0002, .001, .01]), 'p_store': rng.choice([.003, .02, .1, .3])}
    return {'opcodes': rng.random() < .4, 'p': rng.choice([.0003, .002, .01, .05, .2, .6]), 'p_store': None}


# ---------------------------------------------------------------------------------------
# sequence models

def gen_sequences(rng, w):
    """makes w a world that a sequence model can be learnt from -> the training sequences as lists of row numbers"""
    w.pop('infer', None)
    w['derive'] = []
    for c in w['cols']:
        c.pop('blur', None)
    w['hyper'].pop('dependencies', None)
    n = len(w['rows'])
    return [[rng.randrange(n) for _ in range(rng.choice([3, 6, 10]))] for _ in range(rng.choice([1, 2]))]


def gen_sequence_op(rng, n_ev):
    return {'k': 'seq', 'steps': [rng.randrange(n_ev) if rng.random() < .5 else None for _ in range(rng.choice([1, 2, 3, 5]))]}


def build_sequence(plan, env):
    """-> SequentialJPT"""
    from jpt.sequential_trees import SequentialJPT
    w = plan['world']
    seq = SequentialJPT(unlearned(w))
    try:
        seq.fit([objects([w['rows'][i % len(w['rows'])] for i in q], len(q), len(w['cols'])) for q in plan['sequences']])
    except Exception:
        raise env.Skip('no sequence model')
    return seq
