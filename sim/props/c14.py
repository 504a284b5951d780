"""C14: running out of memory is an error, never a wrong answer."""
import base64
import io

import ops
import rng as rng_
import shrinkers
import simsched
import worlds

RUNS = {'quick': 700, 'thorough': 20000}
STAGES = 1
RULE = ('one evaluation = one model and a handful of operations (queries, learning, loading), each executed once undisturbed and then once '
        'per failing array allocation (every one of them up to a bound, otherwise a sample), failing once, several times or from '
        'then on, and with MemoryError at sampled lines of the interpreted parts; distinct by (operation, allocation); non-trivial '
        '= the planned allocation failed while the operation was running')
LEVEL = 'fault_enumeration'
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas'],
    'simulated': ['the allocator of array data', 'MemoryError at lines of jpt'],
    'reference': ['the undisturbed operation'],
}
ASSUMPTIONS = ['allocations of the interpreter itself fail at line boundaries only']
KINDS = ['infer', 'infer', 'posterior', 'posterior', 'expectation', 'mpe', 'kmpe', 'cond', 'pdf', 'likelihood', 'encode', 'apply', 'moment',
         'prune', 'copy', 'dumps', 'dist', 'dist', 'sample', 'learn', 'learn', 'load', 'load', 'leafmpe', 'cleaf']


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([5, 8, 15, 25]), derive_ok=rng.random() < .3)
    w['keep'] = False
    n_ev = 3
    evs = [worlds.gen_evidence(rng, w, p=.4) for _ in range(n_ev)]
    todo = []
    for _ in range(rng.choice([3, 5])):
        k = rng.choice(KINDS)
        if k == 'learn':
            op = {'k': k, 'again': rng.random() < .4}
        elif k == 'load':
            op = {'k': k, 'p': rng.choice(['pickle', 'json'])}
        else:
            op = ops.gen_op(rng, w, n_ev, [k])
        todo.append({'op': op, 'ats': None, 'lines': [rng.random() for _ in range(rng.choice([0, 0, 4]))], 'span': rng.choice([1, 1, 1, 3, 10 ** 9]),
                     'seed': rng.randrange(1 << 30)})
    return {'world': w, 'evs': evs, 'todo': todo, 'bound': 40}


class Run:

    def __init__(self, plan, env):
        self.plan, self.env, self.w = plan, env, plan['world']
        self.m = env.build(self.w)
        self.c = ops.Client(self.m, self.w, plan['evs'])
        self.saved = {}

    def prepare(self, op):
        """arguments are made before the faults begin; returns a function of no arguments"""
        if op['k'] == 'learn':
            args = worlds.learn_args(self.w)
            m = worlds.unlearned(self.w)
            if op['again']:
                m.learn(keep_samples=False, close_convex_gaps=self.w['gaps'], **args)

            def fn():
                m.learn(keep_samples=False, close_convex_gaps=self.w['gaps'], **args)
                return m
            return fn
        if op['k'] == 'load':
            if op['p'] not in self.saved:
                f = io.StringIO() if op['p'] == 'json' else io.BytesIO()
                self.m.save(f, protocol=op['p'])
                self.saved[op['p']] = f.getvalue()
            d = self.saved[op['p']]

            def fn():
                from jpt.trees import JPT
                return JPT.load(io.StringIO(d) if op['p'] == 'json' else io.BytesIO(d), protocol=op['p'])
            return fn
        return lambda: self.c.run(op)

    def outcome(self, fn, fail_at=-1, span=1, line=None):
        """-> [kind, canonical value, allocations, failed, swallowed, line events]"""
        env = self.env
        del env.swallowed[:]
        env.ms.ms_install()
        env.ms.ms_config(0, 0, 0, fail_at, 0)
        env.ms.ms_span(span)
        t = simsched.Tracer(env.prefix, False, None if line is None or line < 0 else (line, 'MemoryError'), 20000000) if line is not None else None
        try:
            if t is None:
                x = fn()
            else:
                with t:
                    x = fn()
            kind = 'ok'
        except BaseException as e:
            kind, x = type(e).__name__, None
        finally:
            n, failed = env.ms.ms_allocs(), env.ms.ms_failed()
            env.ms.ms_config(0, 0, 0, -1, 0)
        return [kind, env.canon(x) if kind == 'ok' else None, n, failed, list(env.swallowed), t.n if t else 0, bool(t and t.fired)]


def run(plan, env, stage, carry):
    out = {'sets': {'distinct': []}, 'stop': True}
    r = Run(plan, env)
    for j, todo in enumerate(plan['todo']):
        op = todo['op']
        env.count('op:' + op['k'])

        def sweep(ats=None):
            """runs in a copy of the process"""
            fn = r.prepare(op)
            base = r.outcome(fn)
            if base[0] not in ('ok',):
                return {'base': base[0]}
            again = r.outcome(fn)
            if env.canon_diff(base[1], again[1]):
                return {'base': 'unstable'}         # not this property's business
            n = again[2]
            rng = rng_.stream('c14', todo['seed'])
            if todo['ats'] is not None:
                ats = todo['ats']
            elif ats is None:
                ats = list(range(1, n + 1)) if n <= plan['bound'] else sorted(rng.sample(range(1, n + 1), plan['bound']))
            res = {'base': 'ok', 'n': n, 'fired': [], 'raised': 0, 'swallowed': 0, 'lines': 0, 'at': ats}

            def judge(what, o):
                if o[0] == 'ok':
                    if o[4]:
                        res['swallowed'] += 1
                    d = env.canon_diff(base[1], o[1])
                    if d:
                        return '%s: wrong result%s: %s' % (what, ' (ignored: %s)' % '; '.join(sorted(set(o[4]))[:2]) if o[4] else '', d[:300])
                elif o[0] == 'SimHang':
                    return '%s: does not end' % what
                else:
                    res['raised'] += 1
                f2 = r.prepare(op) if op['k'] == 'learn' and not op['again'] else fn
                o2 = r.outcome(f2)
                if o2[0] != 'ok':
                    return '%s: the operation fails afterwards: %s' % (what, o2[0])
                d = env.canon_diff(base[1], o2[1])
                if d:
                    return '%s: the operation has another result afterwards: %s' % (what, d[:300])
                return None
            for at in ats:
                fn_ = r.prepare(op) if op['k'] == 'learn' else fn
                o = r.outcome(fn_, at, todo['span'])
                if not o[3]:
                    continue
                res['fired'].append(at)
                bad = judge('allocation %d of %d%s fails' % (at, n, '' if todo['span'] == 1 else ' and the next %d' % (todo['span'] - 1)), o)
                if bad:
                    res['bad'] = bad
                    res['swall'] = sorted(set(o[4]))[:3]
                    res['bad_at'] = at
                    return res
            if todo['lines']:
                total = r.outcome(r.prepare(op) if op['k'] == 'learn' else fn, line=-1)[5]
                for x in todo['lines']:
                    at = 1 + int(x * total)
                    o = r.outcome(r.prepare(op) if op['k'] == 'learn' else fn, line=at)
                    if not o[6]:
                        continue
                    res['lines'] += 1
                    bad = judge('MemoryError at line event %d of %d' % (at, total), o)
                    if bad:
                        res['bad'] = bad
                        res['swall'] = sorted(set(o[4]))[:3]
                        return res
            return res
        kind, res = env.fork(lambda: sweep())
        if kind == 'exc':
            raise RuntimeError(res)
        if kind in ('sig', 'exit'):
            # which allocation was it?
            k2, n = env.fork(lambda: r.outcome(r.prepare(op))[2])
            at = None
            if k2 == 'ok':
                for a in todo['ats'] or range(1, min(n, 200) + 1):
                    k3, _ = env.fork(lambda: sweep([a]))
                    if k3 in ('sig', 'exit'):
                        at = a
                        break
            out['violation'] = {'kind': 'crash', 'site': op['k'], 'msg': '%s: the process ends with signal %s when allocation %s fails' % (op, res, at)}
            return out
        if res['base'] != 'ok':
            env.count('probe:' + ('rejected' if res['base'] != 'unstable' else 'unstable'))
            continue
        env.count('fault:failed allocation', len(res['fired']))
        env.count('fault:MemoryError at a line', res['lines'])
        env.count('probe:raised', res['raised'])
        env.count('probe:error ignored by compiled code', res['swallowed'])
        key = op['k'] + (op.get('f') or '')
        out['sets']['distinct'] += [rng_.derive(key, a, res['n']) for a in res['fired']]
        env.event(j, res['n'], len(res['fired']), res['raised'])
        if res.get('bad'):
            out['violation'] = {'kind': 'wrong', 'site': '%s %s' % (op['k'], '; '.join(res['swall'])), 'msg': '%s: %s' % (
                {k: v for k, v in op.items()}, res['bad'])}
            return out
    out['sample'] = {'operations': [t['op']['k'] for t in plan['todo']]}
    return out


def shrink(plan):
    yield from shrinkers.drop_items(plan, ['todo'], 1)
    for i, t in enumerate(plan['todo']):
        if t['lines']:
            yield from shrinkers.drop_items(plan, ['todo', i, 'lines'], 0)
        yield from shrinkers.put(plan, ['todo', i, 'span'], 1)
    yield from shrinkers.world(plan)
    yield from shrinkers.evidences(plan)
