"""What a learned tree has to be, computed from its training rows alone."""
import math

import ref

INF = float('inf')
EPS = 2.3e-16


class Bad(Exception):
    def __init__(self, kind, msg, site=None):
        Exception.__init__(self, msg)
        self.v = {'kind': kind, 'site': site, 'msg': msg}


def close(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1., abs(a), abs(b))


def inside(v, s, x):
    """is the internal value x in the internal set s"""
    if s is None:
        return True
    if v.numeric:
        return any((a < x or a == x and lc) and (x < b or x == b and uc) for a, b, lc, uc in ref.intervals(s))
    return int(x) in {int(i) for i in s}


class Data:
    """internal values of the rows"""

    def __init__(self, m, rows):
        self.vars = list(m.variables)
        self.rows = [[float(v.domain.values[x]) if v.numeric else int(v.domain.values[x]) for v, x in zip(self.vars, r)]
                     for r in rows]
        self.n = len(rows)


def check_tree(m, d, w):
    """structure: paths, partition, sizes; -> {leaf index: row numbers}"""
    if not m.leaves:
        raise Bad('structure', 'no leaves')
    nodes = {}
    todo = [(m.root, None, {}, 0, list(range(d.n)))]
    rows_of = {}
    at = {v.name: i for i, v in enumerate(d.vars)}
    features = {v.name for v in m.features}
    msl = w['hyper'].get('min_samples_leaf', 1)
    need = msl if type(msl) is int else max(1, int(msl * d.n)) if 0 < msl < 1 else msl
    max_depth = w['hyper'].get('max_depth') or INF
    inner = []
    while todo:
        node, parent, path, depth, rows = todo.pop()
        if node is None:
            raise Bad('structure', 'a child is missing')
        if node.idx in nodes:
            raise Bad('structure', 'two nodes have the index %r' % node.idx)
        nodes[node.idx] = node
        if node.parent is not parent:
            raise Bad('structure', 'node %r has another parent' % node.idx)
        if depth > max_depth:
            raise Bad('depth', 'node %r is at depth %d' % (node.idx, depth))
        if node.samples != len(rows):
            raise Bad('samples', 'node %r: %r samples, of %d rows %d belong there' % (node.idx, node.samples, d.n, len(rows)))
        if len(rows) < need and parent is not None:
            raise Bad('minimum', 'node %r has %d samples, at least %s are required' % (node.idx, len(rows), need))
        for v in d.vars:
            p = node.path.get(v)
            if (p is None) != (v.name not in path):
                raise Bad('path', 'node %r: path and splits differ in %s' % (node.idx, v.name))
        for r in rows:
            for v in d.vars:
                if v.name in path and not inside(v, node.path[v], d.rows[r][at[v.name]]):
                    raise Bad('path', 'node %r: row %d comes here but is not on the path (%s)' % (node.idx, r, v.name))
        if node.idx in m.leaves:
            if m.leaves[node.idx] is not node:
                raise Bad('structure', 'leaf %r is not the one in the tree' % node.idx)
            rows_of[node.idx] = rows
            continue
        if m.innernodes.get(node.idx) is not node:
            raise Bad('structure', 'inner node %r is not the one in the tree' % node.idx)
        v = node.variable
        if v.name not in features:
            raise Bad('feature', 'node %r splits by %s, which is no feature' % (node.idx, v.name))
        if len(node.children) != 2 or len(node.splits) != 2:
            raise Bad('structure', 'node %r has %d children' % (node.idx, len(node.children)))
        i = at[v.name]
        sides = [[r for r in rows if inside(v, s, d.rows[r][i])] for s in node.splits]
        if sorted(sides[0] + sides[1]) != sorted(rows):
            raise Bad('partition', 'node %r: the splits by %s do not partition the rows' % (node.idx, v.name))
        if v.numeric:
            a, b = (ref.intervals(s) for s in node.splits)
            if len(a) != 1 or len(b) != 1 or a[0][1] != b[0][0] or a[0][3] == b[0][2] or a[0][0] != -INF or b[0][1] != INF:
                raise Bad('partition', 'node %r: %s and %s do not partition the numbers' % (node.idx, a, b))
        else:
            a, b = ({int(x) for x in s} for s in node.splits)
            dom = {int(x) for x in v.domain.values.values()}
            if a & b or a | b != dom:
                raise Bad('partition', 'node %r: %s and %s do not partition %s' % (node.idx, a, b, dom))
        inner.append((node, depth, rows, sides))
        for c, s in zip(node.children, sides):
            todo.append((c, node, dict(path, **{v.name: 1}), depth + 1, s))
    if set(rows_of) != set(m.leaves) or {n.idx for n, _, _, _ in inner} != set(m.innernodes):
        raise Bad('structure', 'nodes that are not in the tree')
    for i, rows in rows_of.items():
        if not close(m.leaves[i].prior, len(rows) / d.n):
            raise Bad('prior', 'leaf %r has the probability %r, %d of %d rows belong there' % (i, m.leaves[i].prior, len(rows), d.n))
    depths = {m.root.idx: 0}
    for node, depth, _, _ in inner:
        for c in node.children:
            depths[c.idx] = depth + 1
    return rows_of, inner, depths, need, max_depth


def quantiles(xs):
    """points of the empirical CDF as the library defines it"""
    xs = sorted(xs)
    pts = []
    for i, x in enumerate(xs):
        if pts and pts[-1][0] == x:
            pts[-1][1] += 1
        else:
            pts.append([x, i + 1])
    return [(x, (c - 1) / (len(xs) - 1)) if len(xs) > 1 else (x, 1.) for x, c in pts]


def misfit(pts, i, j):
    """mean square of the deviations from a line between two points"""
    (a, p), (b, q) = pts[i], pts[j]
    m = (q - p) / (b - a)
    return sum((p + m * (x - a) - y) ** 2 for x, y in pts[i + 1:j]) / (j - i)


def check_dist(v, dist, xs, path, gaps, total, who):
    if v.numeric:
        f = ref.Num(dist)
        pts = quantiles(xs)
        lo, hi = pts[0][0], pts[-1][0]
        bridged = gaps and path is not None
        slack = 1e-6
        if len(pts) == 1:
            if bridged:
                a, b, _, _ = ref.intervals(path)[0]
                lo, hi = (a if a > -INF else lo), (b if b < INF else hi)
                if f.left(lo) > slack or f.F(hi) < 1 - slack and f.F(math.nextafter(hi, INF)) < 1 - slack:
                    raise Bad('numeric', '%s: all samples are %r, P(%r <= %s <= %r) is not 1' % (who, xs[0], lo, v.name, hi))
            elif f.left(lo) > slack or f.F(lo) < 1 - slack:
                raise Bad('numeric', '%s: all samples of %s are %r, its probability is %r' % (who, v.name, lo, f.jump(lo)))
            return
        # a leaf's distribution is mixed with a little mass on the bridges to its neighbours
        g, a, top = 0., 0., math.nextafter(hi, INF)
        if bridged:
            p, q, _, _ = ref.intervals(path)[0]
            bridges = [-INF < p < lo, INF > q > top]
            if any(bridges):
                a, g = 1. / (2 * total), bridges[0] / sum(bridges)
        slack += 8 * EPS * max(abs(m * x) for m, _ in f.f for x in (lo, hi))
        F = lambda x: (f.F(x) - a * g) / (1 - a)
        if (f.left(lo) - a * g) / (1 - a) > slack or F(hi) < 1 - slack and F(top) < 1 - slack:
            raise Bad('numeric', '%s: %s lies in [%r, %r], its CDF goes from %r to %r' % (who, v.name, lo, hi, f.left(lo), f.F(hi)))
        # its corners are points of the samples, on their CDF
        at = {x: i for i, (x, _) in enumerate(pts)}
        corners = [0] + [at[x] for x in f.low if x in at and 0 < at[x] < len(pts) - 1] + [len(pts) - 1]
        for x in f.low[1:]:
            if lo < x < hi and x not in at:
                raise Bad('numeric', '%s: the CDF of %s has a corner at %r, which is no sample' % (who, v.name, x))
        for i in corners:
            x, q = pts[i]
            if not close(F(x), q, slack) and not (i == len(pts) - 1 and close(F(top), q, slack)):
                raise Bad('numeric', '%s: P(%s <= %r) is %r, of the samples it is %r' % (who, v.name, x, F(x), q))
        # and it is as precise as required, unless one more corner does not improve it
        prec = dist.precision
        for i, j in zip(corners, corners[1:]):
            e = misfit(pts, i, j)
            if e * (j - i) / (j - i + 1) >= prec * prec + slack and min(misfit(pts, i, k) * (k - i) / (j - i) + misfit(pts, k, j) * (j - k) / (j - i)
                                                for k in range(i + 1, j)) < e - slack:
                raise Bad('precision', '%s: the CDF of %s misses that of the samples by %.4g between %r and %r, the precision is %r'
                          % (who, v.name, math.sqrt(e), pts[i][0], pts[j][0], prec))
    else:
        f = ref.Disc(dist)
        cnt = {}
        for x in xs:
            cnt[x] = cnt.get(x, 0) + 1
        for k in set(cnt) | set(f.p):
            if not close(f.p.get(k, 0.), cnt.get(k, 0) / len(xs)):
                raise Bad('table', '%s: P(%s = %r) is %r, %d of %d samples have it' % (who, v.name, k, f.p.get(k), cnt.get(k, 0), len(xs)))


def check_dists(m, d, rows_of, w, numeric=True, tables=True):
    total, n = d.n, 0
    judge = {True: numeric, False: tables}
    for i, rows in sorted(rows_of.items()):
        leaf = m.leaves[i]
        if {v.name for v in leaf.distributions} != {v.name for v in d.vars}:
            raise Bad('variables', 'leaf %r: the variables differ' % i)
        for k, v in enumerate(d.vars):
            if judge[bool(v.numeric)]:
                n += 1
                check_dist(v, leaf.distributions[v], [d.rows[r][k] for r in rows], leaf.path.get(v), w['gaps'], total, 'leaf %r' % i)
    for k, v in enumerate(d.vars):
        if judge[bool(v.numeric)]:
            n += 1
            check_dist(v, m.priors[v], [r[k] for r in d.rows], None, False, total, 'prior')
        if v.numeric and numeric:
            u = sorted({r[k] for r in d.rows})
            want = min((b - a for a, b in zip(u, u[1:])), default=2.)
            if m.minimal_distances[v] != want:
                raise Bad('distance', 'minimal distance of %s is %r, not %r' % (v.name, m.minimal_distances[v], want))
    return n


# ----------------------------------------------------------------------------------------------------------------------
# splits

def variance(xs):
    n = len(xs)
    if n < 2:
        return 0.
    mean = math.fsum(xs) / n
    return math.fsum((x - mean) ** 2 for x in xs) / n


class Gain:

    def __init__(self, m, d):
        self.d = d
        targets = {v.name for v in m.targets}
        self.num = [i for i, v in enumerate(d.vars) if not v.symbolic and v.name in targets]
        self.sym = [i for i, v in enumerate(d.vars) if v.symbolic and v.name in targets]
        self.w = len(self.num) / (len(self.num) + len(self.sym))
        self.features = [i for t in (0, 1) for i, v in enumerate(d.vars)
                         if v.name in {x.name for x in m.features} and bool(v.symbolic) == bool(t)]

    def node(self, rows):
        """statistics of a node; None if they are too inexact in floating point to be judged"""
        self.rows = rows
        self.old = {}
        self.tol = 1e-9
        for i in self.num:
            xs = [self.d.rows[r][i] for r in rows]
            v = variance(xs)
            big = max(abs(x) for x in xs) ** 2
            if v == 0 or len(set(xs)) == 1:
                v = 0.
                if big and any(x != int(x) or abs(x) > 1e6 for x in xs):
                    return None
            else:
                c = big * EPS * len(rows) * 8 / v
                if c > 1e-6:
                    return None
                self.tol += c
            self.old[i] = v
        self.gini_old = self.gini(rows)
        self.tol *= 4
        return self

    def gini(self, rows):
        if not self.sym:
            return 0.
        out = []
        for i in self.sym:
            v = self.d.vars[i]
            k = len(list(v.domain.values.values()))
            if k == 1:
                out.append(0.)
                continue
            cnt = {}
            for r in rows:
                cnt[self.d.rows[r][i]] = cnt.get(self.d.rows[r][i], 0) + 1
            g = (1 - sum(c * c for c in cnt.values()) / len(rows) ** 2) / (1 - 1 / k)
            out.append(1 - g if v.invert_impurity else g)
        return sum(out) / len(out)

    def gain(self, var, left, right):
        n = len(self.rows)
        g, div = 0., 0
        for i in self.num:
            if i == var or self.old[i] == 0:
                continue
            new = (variance([self.d.rows[r][i] for r in left]) * len(left)
                   + variance([self.d.rows[r][i] for r in right]) * len(right)) / n
            g = g * div + (self.old[i] - new) / self.old[i] / (div + 1)      # the combination the library uses
            div += 1
        g *= self.w
        if self.sym and abs(self.gini_old) > 1e-12:
            new = self.gini(left) * len(left) / n + self.gini(right) * len(right) / n
            g += (self.gini_old - new) / self.gini_old * (1 - self.w)
        return g

    def best(self, need):
        """largest gain of an admissible split; -inf if there is none"""
        top = (-INF, None)
        for i in self.features:
            vals = sorted({self.d.rows[r][i] for r in self.rows})
            if len(vals) < 2:
                continue
            if self.d.vars[i].symbolic:
                cand = [(lambda x, v=v: x == v, v) for v in vals]
            else:
                cand = [(lambda x, v=v: x <= v, v) for v in vals[:-1]]
            for f, v in cand:
                left = [r for r in self.rows if f(self.d.rows[r][i])]
                right = [r for r in self.rows if not f(self.d.rows[r][i])]
                if len(left) < need or len(right) < need:
                    continue
                g = self.gain(i, left, right)
                if g > top[0]:
                    top = (g, '%s at %r' % (self.d.vars[i].name, v))
        return top


def check_splits(m, d, w, rows_of, inner, depths, need, max_depth):
    """-> (judged, skipped) nodes"""
    deps = w['hyper'].get('dependencies')
    if deps and any(set(x) != {v.name for v in m.targets} for x in deps.values()):
        return 0, 0
    mii = w['hyper'].get('min_impurity_improvement') or 0
    g = Gain(m, d)
    judged = skipped = 0
    at = {v.name: i for i, v in enumerate(d.vars)}
    for node, depth, rows, sides in inner:
        if g.node(rows) is None:
            skipped += 1
            continue
        judged += 1
        got = g.gain(at[node.variable.name], *sides)
        best, how = g.best(need)
        if got < best - g.tol:
            raise Bad('split', 'node %r splits by %s with a gain of %r, the best gain is %r (%s)' % (node.idx, node.variable.name, got, best, how))
        if got < mii - g.tol:
            raise Bad('gain', 'node %r splits by %s with a gain of %r, at least %r is required' % (node.idx, node.variable.name, got, mii))
    for i, rows in rows_of.items():
        if depths[i] >= max_depth:
            continue
        if g.node(rows) is None:
            skipped += 1
            continue
        judged += 1
        best, how = g.best(need)
        if best >= mii + g.tol and best > -INF:
            raise Bad('leaf', 'leaf %r could be split with a gain of %r (%s), %r is enough' % (i, best, how, mii))
    return judged, skipped


def check_kept(m, rows_of, w):
    if w['keep']:
        for i, rs in rows_of.items():
            s = getattr(m.leaves[i], 's_indices', None)
            if s is None or sorted(int(x) for x in s) != sorted(rs):
                raise Bad('kept', 'leaf %r keeps the rows %s, not %s' % (i, None if s is None else sorted(int(x) for x in s)[:20], rs[:20]))
