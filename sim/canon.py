"""Canonical, comparable form of everything the library can return."""
import math
import numbers
import types

import numpy as np


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    x = float(x)
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return x


def _key(x):
    return (type(x).__name__ not in ('int', 'float', 'bool'), str(type(x).__name__), repr(x))


class Canon:

    def __init__(self):
        from jpt.base.intervals import ContinuousSet, RealSet
        from jpt.distributions.univariate.distribution import Distribution
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        from jpt.base.functions import PiecewiseFunction
        from jpt.trees import JPT, Node, Leaf
        from jpt.variables import Variable, VariableMap
        self.CS, self.RS, self.D, self.Q, self.PF = (
            ContinuousSet, RealSet, Distribution, QuantileDistribution, PiecewiseFunction)
        self.JPT, self.Node, self.Leaf, self.V, self.VM = JPT, Node, Leaf, Variable, VariableMap

    def __call__(self, x, depth=0):
        c = self
        if depth > 40:
            return '<deep>'
        d = depth + 1
        if x is None or isinstance(x, str):
            return x
        if isinstance(x, (bool, numbers.Number, np.generic)) and not isinstance(x, (np.str_, np.object_)):
            try:
                return num(x)
            except TypeError:
                return repr(x)
        if isinstance(x, np.str_):
            return str(x)
        if isinstance(x, BaseException):
            return {'!exc': type(x).__name__}
        if isinstance(x, c.CS):
            return {'!iv': [num(x.lower), num(x.upper), int(x.left), int(x.right)]}
        if isinstance(x, c.RS):
            return {'!rs': [c(i, d) for i in x.intervals]}
        if isinstance(x, (set, frozenset)):
            return {'!set': sorted((c(i, d) for i in x), key=_key)}
        if type(x).__name__ == 'DataFrame':
            return {'!df': [[str(k), str(x[k].dtype), c(x[k].tolist(), d)] for k in x.columns],
                    'index': c(list(x.index), d)}
        if isinstance(x, np.ndarray):
            return [c(i, d) for i in x.tolist()]
        if isinstance(x, (list, tuple)):
            return [c(i, d) for i in x]
        if isinstance(x, c.VM):
            return {'!vm': type(x).__name__,
                    'map': {v.name: c(val, d) for v, val in x.items()}}
        if isinstance(x, c.V):
            return {'!var': x.name, 'json': c(x.to_json(), d)}
        if isinstance(x, c.JPT):
            return {'!jpt': tree(x, c, d)}
        if isinstance(x, c.Leaf):
            return {'!leaf': x.idx, 'prior': num(x.prior), 'samples': num(x.samples),
                    'path': c(x.path, d), 'dist': c(x.distributions, d)}
        if isinstance(x, c.Node):
            return {'!node': x.idx}
        if isinstance(x, type) and issubclass(x, c.D):
            return {'!dom': c(x.type_to_json(), d)}
        if isinstance(x, c.D):
            return {'!dist': type(x).__name__, 'json': c(x.to_json(), d)}
        if isinstance(x, c.Q):
            return {'!q': c(x.to_json(), d)}
        if isinstance(x, c.PF):
            return {'!pf': [[c(i, d), str(f)] for i, f in zip(x.intervals, x.functions)]}
        if isinstance(x, dict):
            return {c.dkey(k, d): c(v, d) for k, v in x.items()}
        if isinstance(x, (types.GeneratorType, map, filter, zip)):
            return {'!gen': 1}
        if isinstance(x, bytes):
            return {'!bytes': len(x)}
        return {'!obj': type(x).__name__}

    def dkey(self, k, d):
        if isinstance(k, str):
            return k
        if isinstance(k, self.V):
            return k.name
        return repr(self(k, d))


def tree(m, c, d=0):
    """observable state of a model: its serialised form plus what that leaves out"""
    j = c(m.to_json(), d)
    # the order of these collections carries no meaning
    for k in ('leaves', 'innernodes'):
        if isinstance(j.get(k), list):
            j[k] = sorted(j[k], key=lambda n: n['idx'])
    j['~paths'] = {str(i): c(l.path, d) for i, l in sorted(m.leaves.items())}
    j['~inner'] = {
        str(i): [None if k is None else k.idx for k in n.children]
        for i, n in sorted(m.innernodes.items())
    }
    j['~vars'] = [v.name for v in m.variables]
    j['~samples'] = {str(i): num(l.samples) for i, l in sorted(m.leaves.items())}
    return j


def diff(a, b, tol=1e-9, path=''):
    """first difference between two canonical forms, or None"""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)) and a == b:
            return None
        return None if a == b else '%s: %r != %r' % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            return None
        return '%s: %r != %r' % (path, a, b)
    if type(a) is not type(b):
        return '%s: %s != %s' % (path, _short(a), _short(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s/%s: only in %s' % (path, k, 'first' if k in a else 'second')
            r = diff(a[k], b[k], tol, path + '/' + k)
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: length %d != %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, tol, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    return None if a == b else '%s: %s != %s' % (path, _short(a), _short(b))


def _short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'
