"""A small executable reference of what a joint probability tree denotes: a mixture of products of univariate distributions.

It reads the parameters of a model (leaf priors, paths, pieces of the CDFs, tables of probabilities) and computes
everything else with a few lines of plain Python.
"""
import bisect
import itertools
import math

INF = float('inf')


class Num:
    """numeric distribution: F(x) = m x + c on [lower_i, lower_{i+1})"""

    def __init__(self, dist):
        self.low, self.f = [], []
        for i, f in zip(dist.cdf.intervals, dist.cdf.functions):
            self.low.append(float(i.lower))
            self.f.append((float(getattr(f, 'm', 0.)), float(f.c)))
        self.low[0] = -INF

    def _eval(self, i, x):
        m, c = self.f[i]
        return c if not m else m * x + c

    def F(self, x):
        if x == INF:
            return 1.
        if x == -INF:
            return 0.
        return self._eval(bisect.bisect_right(self.low, x) - 1, x)

    def left(self, x):
        """limit of F from the left"""
        if x == INF:
            return 1.
        if x == -INF:
            return 0.
        return self._eval(max(0, bisect.bisect_left(self.low, x) - 1), x)

    def jump(self, x):
        j = self.F(x) - self.left(x)
        return j if j > 1e-12 else 0.

    def iv(self, i):
        """mass of an interval (lower, upper, lower closed, upper closed)"""
        a, b, lc, uc = i
        if a > b or (a == b and not (lc and uc)):
            return 0.
        hi = self.F(b)
        if not uc:
            hi -= self.jump(b)
        lo = self.F(a)
        if lc:
            lo -= self.jump(a)
        return max(0., hi - lo)

    def mass(self, ivs):
        return sum(self.iv(i) for i in ivs)

    def jumps(self):
        return [(x, j) for x in self.low[1:] for j in [self.jump(x)] if j]

    def levels(self):
        """(interval index, slope) of the pieces with positive density; None if the distribution is a single point"""
        if len(self.low) == 2:
            return None
        return [(i, self.f[i][0]) for i in range(1, len(self.low)) if self.f[i][0]]


class Disc:

    def __init__(self, dist):
        vals = list(type(dist).values.values())
        self.p = {v: float(p) for v, p in zip(vals, dist.probabilities)}

    def mass(self, s):
        return sum(self.p.get(v, 0.) for v in s)


def intervals(s):
    """plain intervals of a number, ContinuousSet or RealSet"""
    if isinstance(s, (int, float)):
        return [(float(s), float(s), True, True)]
    if hasattr(s, 'intervals'):
        return [i for x in s.intervals for i in intervals(x)]
    from jpt.base.intervals import INC
    return [(float(s.lower), float(s.upper), s.left == INC, s.right == INC)]


def cut(xs, ys):
    """intersection of two lists of plain intervals (each list disjoint)"""
    out = []
    for a, b, lc, uc in xs:
        for a_, b_, lc_, uc_ in ys:
            lo, l = max((a, not lc), (a_, not lc_))
            hi, u = min((b, uc), (b_, uc_))
            if lo < hi or (lo == hi and not l and u):
                out.append((lo, hi, not l, u))
    return out


class Model:

    def __init__(self, m):
        self.m = m
        self.vars = list(m.variables)
        self.num = {v.name for v in self.vars if v.numeric}
        self.leaves = []
        for i, l in sorted(m.leaves.items()):
            path = {v.name: self.plain(v, s) for v, s in l.path.items()}
            self.leaves.append((i, float(l.prior), path,
                                {v.name: (Num if v.numeric else Disc)(d) for v, d in l.distributions.items()}))

    def plain(self, v, s):
        """a set of values of a variable, without types of the library"""
        if v.numeric:
            return intervals(s)
        if isinstance(s, (set, frozenset, list, tuple)):
            return {int(i) for i in s}
        return {int(s)}

    def event(self, assignment):
        """a ValueAssignment of the library in plain form"""
        return {v.name: self.plain(v, s) for v, s in assignment.items()}

    def meet(self, name, s, t):
        return cut(s, t) if name in self.num else s & t

    def both(self, a, b):
        out = dict(a)
        for k, s in b.items():
            out[k] = self.meet(k, out[k], s) if k in out else s
        return out

    def leaf_masses(self, event):
        """prior mass of the event in each leaf"""
        out = []
        for i, w, path, dists in self.leaves:
            p = w
            for k, s in event.items():
                p *= dists[k].mass(self.meet(k, s, path[k]) if k in path else s)
            out.append(p)
        return out

    def p(self, event):
        return sum(self.leaf_masses(event))

    def infer(self, query, evidence):
        """P(query | evidence) or None"""
        pe = self.p(evidence)
        if pe <= 0:
            return None
        return self.p(self.both(query, evidence)) / pe


def explanations(m, limit):
    """all (leaf, {variable: state}, likelihood) of a model; None if there are more than `limit`.

    A state of a variable is a maximal set of values of equal likelihood (plain form, of the library's values)."""
    out = []
    for i, l in sorted(m.leaves.items()):
        names, choices, n = [], [], 1
        for v, d in l.distributions.items():
            if v.numeric:
                r = Num(d)
                lv = r.levels()
                if lv is None:
                    ch = [('dirac', INF, r.low[1])]
                else:
                    by = {}
                    for k, slope in lv:
                        up = r.low[k + 1] if k + 1 < len(r.low) else INF
                        by.setdefault(slope, []).append((r.low[k], up))
                    ch = [(tuple(merge(s)), slope, None) for slope, s in by.items()]
            else:
                by = {}
                for val, p in Disc(d).p.items():
                    if p:
                        by.setdefault(p, set()).add(val)
                ch = [(frozenset(s), p, None) for p, s in by.items()]
            names.append(v)
            choices.append(ch)
            n *= max(1, len(ch))
            if n + len(out) > limit:
                return None
        for combo in itertools.product(*choices):
            like = l.prior
            for c in combo:
                like *= c[1]
            if like > 0:
                out.append((i, {v.name: c for v, c in zip(names, combo)}, like))
    return out


def merge(ivs):
    """adjacent half-open intervals put together"""
    out = []
    for a, b in sorted(ivs):
        if out and out[-1][1] == a:
            out[-1][1] = b
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def close(a, b, tol=1e-9):
    return a == b or (not math.isnan(a) and not math.isnan(b) and abs(a - b) <= tol * max(1e-12, abs(a), abs(b)))


# -- conditioning, mixtures and expectations --------------------------------------------------------------------------

BELOW = lambda x: [(-INF, x, True, True)]


def points(*lists):
    """points strictly between the distinct knots of the given lists, and one beyond either end"""
    ks = sorted({x for l in lists for x in l if not math.isinf(x)})
    if not ks:
        return [0.]
    scale = max(1., abs(ks[0]), abs(ks[-1]))
    out = [ks[0] - scale, ks[-1] + scale]
    for a, b in zip(ks, ks[1:]):
        if b - a > 1e-7 * scale:
            out += [a + (b - a) * t for t in (.25, .5, .9)]
    return sorted(out)


def knots(ivs):
    return [x for i in ivs for x in i[:2]]


def num_below(d, ivs, x):
    """mass of a numeric distribution below x within the plain intervals ivs (None: everything)"""
    return d.F(x) if ivs is None else d.mass(cut(ivs, BELOW(x)))


def num_mean(d, ivs):
    """unnormalised first moment of a numeric distribution over plain intervals ivs (None: everything)"""
    if ivs is None:
        ivs = [(-INF, INF, True, True)]
    total = 0.
    for a, b, lc, uc in ivs:
        for k in range(1, len(d.low)):
            lo, up = d.low[k], d.low[k + 1] if k + 1 < len(d.low) else INF
            m = d.f[k][0]
            l, u = max(a, lo), min(b, up)
            if m and l < u:
                total += m * (u * u - l * l) / 2
        for x, j in d.jumps():
            if a < x < b or (x == a and lc) or (x == b and uc):
                total += x * j
    return total


def num_moment(d, ivs, order, c, label):
    """unnormalised moment of label(X) around c over plain intervals ivs (None: everything)"""
    if ivs is None:
        ivs = [(-INF, INF, True, True)]
    total = 0.
    for a, b, lc, uc in ivs:
        for k in range(1, len(d.low)):
            lo, up = d.low[k], d.low[k + 1] if k + 1 < len(d.low) else INF
            m = d.f[k][0]
            l, u = max(a, lo), min(b, up)
            if m and l < u:
                y, z = label(l) - c, label(u) - c
                # mass times the mean of t^order over [y, z]
                total += m * (u - l) * sum(y ** i * z ** (order - i) for i in range(order + 1)) / (order + 1)
        for x, j in d.jumps():
            if a < x < b or (x == a and lc) or (x == b and uc):
                total += (label(x) - c) ** order * j
    return total


class Mixture:
    """posterior of a Model under evidence, variable by variable"""

    def __init__(self, model, event):
        self.model = model
        self.event = event
        self.parts = []
        for i, w, path, dists in model.leaves:
            p = w
            sets = {}
            for k, s in event.items():
                sets[k] = model.meet(k, s, path[k]) if k in path else s
                p *= dists[k].mass(sets[k])
            if p > 0:
                self.parts.append((p, sets, dists))
        self.mass = sum(p for p, _, _ in self.parts)

    def knots(self, name):
        return [x for _, sets, d in self.parts for x in d[name].low + knots(sets.get(name, ()))]

    def F(self, name, x):
        t = 0.
        for p, sets, d in self.parts:
            s = sets.get(name)
            t += p * num_below(d[name], s, x) / (1. if s is None else d[name].mass(s))
        return t / self.mass

    def mean(self, name):
        t = 0.
        for p, sets, d in self.parts:
            s = sets.get(name)
            t += p * num_mean(d[name], s) / (1. if s is None else d[name].mass(s))
        return t / self.mass

    def moment(self, name, order, c, label):
        if name not in self.model.num:
            return sum((label(k) - c) ** order * p for k, p in self.table(name).items())
        t = 0.
        for p, sets, d in self.parts:
            s = sets.get(name)
            t += p * num_moment(d[name], s, order, c, label) / (1. if s is None else d[name].mass(s))
        return t / self.mass

    def table(self, name):
        out = {}
        for p, sets, d in self.parts:
            s = sets.get(name)
            z = 1. if s is None else d[name].mass(s)
            for v, q in d[name].p.items():
                out[v] = out.get(v, 0.) + (p * q / z if s is None or v in s else 0.)
        return {v: q / self.mass for v, q in out.items()}
