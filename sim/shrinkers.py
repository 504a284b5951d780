"""Candidates for smaller plans, shared by the properties."""
import copy


def drop_items(plan, path, minimum=0):
    """remove chunks, then single items, of the list found at `path`"""
    lst = plan
    for k in path:
        lst = lst[k]
    n = len(lst)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            if n - len(lst[i:i + size]) >= minimum:
                yield _with(plan, path, lst[:i] + lst[i + size:])
        size //= 2


def _with(plan, path, value):
    p = copy.deepcopy(plan)
    o = p
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = value
    return p


def put(plan, path, value):
    o = plan
    for k in path:
        o = o[k] if not isinstance(o, dict) else o.get(k)
    if o != value:
        yield _with(plan, path, value)


def world(plan, path=('world',)):
    path = list(path)
    w = plan
    for k in path:
        w = w[k]
    yield from drop_items(plan, path + ['derive'])
    yield from drop_items(plan, path + ['rows'], 2)
    for k in ('max_leaves', 'max_depth', 'dependencies', 'features', 'targets'):
        if w['hyper'].get(k) is not None:
            h = {a: b for a, b in w['hyper'].items() if a != k and not (k == 'targets' and a == 'features')}
            yield _with(plan, path + ['hyper'], h)
    for k in ('keep',):
        if w.get(k):
            yield _with(plan, path + [k], False)
    for i, c in enumerate(w['cols']):
        for k in ('blur', 'max_std', 'inv', 'mii'):
            if k in c:
                yield _with(plan, path + ['cols', i], {a: b for a, b in c.items() if a != k})


def evidences(plan, path=('evs',)):
    path = list(path)
    lst = plan
    for k in path:
        lst = lst[k]
    for i, e in enumerate(lst):
        for k in list(e['map']):
            yield _with(plan, path + [i, 'map'], {a: b for a, b in e['map'].items() if a != k})
