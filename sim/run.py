"""Command line of the simulator.

  run.py check C01            one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay FILE          re-execute a recorded violation in fresh processes
  run.py selftest C01 [n]     execute n runs twice each, in other processes, and compare event logs
  run.py setup                build everything
"""
import json
import os
import queue
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import build as build_
import importlib
import rng as rng_

N_LANES = 8
WALL = int(os.environ.get('JPT_SIM_WALL', '600'))


class HarnessError(Exception):
    pass


def _aslr_off():
    try:
        return ['setarch', '-R'] if subprocess.run(
            ['setarch', '-R', 'true'], capture_output=True).returncode == 0 else []
    except OSError:
        return []


class Lane:

    def __init__(self, n, tree, prop, memsim, fsim, scratch, prefix):
        mpl = build_.mpl_cache()
        env = {
            'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
            'HOME': scratch, 'LANG': 'C.UTF-8', 'TMPDIR': scratch,
            'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': mpl, 'PYTHONDONTWRITEBYTECODE': '1',
            'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
            'PYTHONHASHSEED': str(rng_.derive('hash', n) % 4294967295 if n else 0),
            'LD_PRELOAD': fsim,
            'JPT_SIM_SCRATCH': scratch,
        }
        if n % 4 >= 2:      # another locale, other default encoding
            env.update(LANG='C', LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
        if n % 2:      # what malloc hands out and takes back is overwritten with a byte
            env['MALLOC_PERTURB_'] = str(40 + 23 * n)
        for k in ('JPT_SIM_DEBUG', 'JPT_SIM_CPU'):
            if k in os.environ:
                env[k] = os.environ[k]
        self.n = n
        self.p = subprocess.Popen(
            prefix + [build_.PY, '-W', 'ignore', os.path.join(HERE, 'worker.py'), str(n), tree, prop, memsim],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=scratch,
            stderr=None if os.environ.get('JPT_SIM_DEBUG') else open(os.path.join(scratch, 'stderr-%d' % n), 'w'))
        self.scratch = scratch

    def wait_ready(self):
        line = self.p.stdout.readline()
        if line.strip() != b'ready':
            err = ''
            try:
                err = open(os.path.join(self.scratch, 'stderr-%d' % self.n)).read()[-3000:]
            except OSError:
                pass
            raise HarnessError('lane %d did not start: %s' % (self.n, err))

    def call(self, task):
        try:
            data = json.dumps(task).encode()
            self.p.stdin.write(struct.pack('<q', len(data)) + data)
            self.p.stdin.flush()
            head = self.p.stdout.read(8)
            line = self.p.stdout.read(struct.unpack('<q', head)[0]) if len(head) == 8 else b''
        except (OSError, ValueError):
            line = ''
        if not line:
            return {'harness': 'lane %d died' % self.n, 'stats': {}}
        res = json.loads(line)
        if 'signal' in res:
            s = res['signal']
            if s in (signal.SIGXCPU,):
                res['violation'] = {'kind': 'hang', 'msg': 'no answer within the CPU budget of a run'}
            elif s in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                res['violation'] = {'kind': 'crash', 'msg': 'process died of signal %d' % s}
            else:
                res['harness'] = 'run killed by signal %d' % s
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


class Sim:

    def __init__(self, prop, lanes=range(N_LANES)):
        self.prop = prop
        self.mod = importlib.import_module('props.' + prop.lower())
        self.tree = build_.build()
        self.memsim = build_.build_native('memsim')
        self.fsim = build_.build_native('fsim')
        self.scratch = tempfile.mkdtemp(prefix='jptsim-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        pre = _aslr_off()
        self.aslr_off = bool(pre)
        self.lanes = {}
        try:
            for n in lanes:
                d = os.path.join(self.scratch, 'lane%d' % n)
                os.makedirs(d)
                self.lanes[n] = Lane(n, self.tree, prop, self.memsim, self.fsim, d, pre)
            for l in self.lanes.values():
                l.wait_ready()
        except BaseException:
            self.close()
            raise

    def close(self):
        for l in self.lanes.values():
            l.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def stages(self, idx):
        k = getattr(self.mod, 'STAGES', 1)
        return [(idx * 3 + 5 * s + (s * idx) // 8) % N_LANES if s else idx % N_LANES for s in range(k)]

    def execute(self, task, lanes):
        """one simulated run, all its stages, in the calling thread"""
        carry, merged = None, {}
        results = []
        for s, lane in enumerate(lanes):
            t = dict(task, stage=s, carry=carry)
            r = self.lanes[lane].call(t)
            results.append(r)
            carry = r.get('carry')
            if r.get('violation') or r.get('harness') or r.get('stop') or r.get('skipped'):
                break
        out = dict(results[-1])
        out['stats'] = {}
        for r in results:
            for k, v in r.get('stats', {}).items():
                out['stats'][k] = out['stats'].get(k, 0) + v
            if 'plan' in r:
                out.setdefault('plan', r['plan'])
        out['sets'] = {}
        for r in results:
            for k, v in (r.get('sets') or {}).items():
                out['sets'].setdefault(k, []).extend(v)
        out['digests'] = [r.get('digest') for r in results]
        out['lanes'] = list(lanes)
        out['sample'] = results[0].get('sample')
        return out

    def batch(self, seed, idxs, deadline):
        """all runs of `idxs`; stops early after a violation. Results depend on idx only."""
        results = {}
        stop = threading.Event()
        locks = {n: threading.Lock() for n in self.lanes}
        todo = {n: queue.Queue() for n in self.lanes}
        for i in idxs:
            todo[self.stages(i)[0]].put(i)

        def go(n):
            while not stop.is_set():
                try:
                    i = todo[n].get_nowait()
                except queue.Empty:
                    return
                if time.monotonic() > deadline:
                    stop.set()
                    results['timeout'] = True
                    return
                lanes = self.stages(i)
                r = self._staged(seed, i, lanes, locks)
                results[i] = r
                if r.get('violation') and not r.get('known'):
                    if not known(self.prop, r['violation']) and not os.environ.get('JPT_SIM_KEEP'):
                        stop.set()
                elif r.get('harness'):
                    stop.set()

        threads = [threading.Thread(target=go, args=(n,)) for n in self.lanes]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results

    def _staged(self, seed, i, lanes, locks):
        outer = self

        class Proxy:
            def __init__(self, lane):
                self.lane = lane

            def call(self, task):
                with locks[self.lane]:
                    return outer.lanes[self.lane].call(task)

        view = Sim.__new__(Sim)
        view.lanes = {n: Proxy(n) for n in self.lanes}
        view.mod = self.mod
        return Sim.execute(view, {'seed': seed, 'idx': i}, lanes)


# ---------------------------------------------------------------------------------------

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


_KF = None


def known(prop, violation):
    """the entry of the committed list that names exactly this violation, if any"""
    global _KF
    if _KF is None:
        _KF = [f for f in known_findings() if f.get('status') == 'known']
    for f in _KF:
        if f['property'] == prop and f['kind'] == violation.get('kind') and \
                f.get('site') == violation.get('site'):
            return f
    return None


def same(v, w):
    return v and w and v.get('kind') == w.get('kind') and v.get('site') == w.get('site')


def minimise(sim, plan, lanes, violation, budget=60.):
    t_end = time.monotonic() + budget
    n = 0
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for cand in sim.mod.shrink(plan):
            if time.monotonic() > t_end:
                break
            n += 1
            r = sim.execute({'plan': cand}, lanes)
            if same(r.get('violation'), violation):
                plan = r.get('plan') or cand
                violation = r['violation']
                progress = True
                break
    return plan, violation, n


def check(prop):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    print('property=%s seed=%d tier=%s' % (prop, seed, tier), flush=True)
    sim = Sim(prop)
    try:
        mod = sim.mod
        n = mod.RUNS[tier]
        if os.environ.get('JPT_SIM_RUNS'):
            n = int(os.environ['JPT_SIM_RUNS'])
        t1 = time.monotonic()
        wall = WALL if tier == 'quick' else 6 * 3600
        results = sim.batch(seed, range(n), t0 + wall)
        t2 = time.monotonic()
        if results.pop('timeout', None):
            if len(results) < min(n, 60) and not any(r.get('violation') for r in results.values()):
                raise HarnessError('wall clock limit reached after %d of %d runs' % (len(results), n))
            print('wall clock limit reached after %d of %d runs' % (len(results), n), flush=True)
        bad = sorted(i for i, r in results.items() if r.get('harness'))
        viol = sorted(i for i, r in results.items() if r.get('violation'))
        new = [i for i in viol if not known(prop, results[i]['violation'])]
        if bad and not new:
            i = bad[0]
            raise HarnessError('run %d: %s' % (i, results[i]['harness']))
        skipped = [i for i, r in results.items() if r.get('skipped')]
        if len(skipped) > len(results) // 2 and not new:
            raise HarnessError('%d of %d runs skipped: %s' % (len(skipped), len(results), results[skipped[0]]['skipped']))
        reported = {}
        for f in known_findings():              # each has a plan that shows it
            if f.get('status') == 'known' and f['property'] == prop:
                d = json.load(open(os.path.join(VERIF, f['replay'])))
                r = sim.execute({'plan': d['plan']}, d['lanes'])
                v = r.get('violation')
                if v and known(prop, v) is f:
                    reported[f['id']] = -1
                    print('KNOWN-FINDING: property=%s %s' % (prop, f['what']), flush=True)
                elif v and not known(prop, v):
                    new.append(-1)
                    results[-1] = dict(r, lanes=d['lanes'], plan=r.get('plan') or d['plan'])
        for i in viol:
            f = known(prop, results[i]['violation'])
            if f and f['id'] not in reported:
                reported[f['id']] = i
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']), flush=True)
        replay = None
        if new:
            # confirm in the same lanes, then shrink
            for i in new[:6]:
                r = results[i]
                v = r['violation']
                plan = r.get('plan')
                if plan is None:       # the run died before it could tell
                    plan = mod.gen(rng_.stream(seed, prop, i), i)
                    plan['lane'] = r['lanes'][0]
                again = sim.execute({'plan': plan}, r['lanes'])
                if same(again.get('violation'), v):
                    plan, v, tried = minimise(sim, plan, r['lanes'], again['violation'])
                    break
                print('run %d: %s: %s: the second execution of the same plan did not show this (%s); the code depends on '
                      'something outside of the simulation' % (i, v.get('kind'), v.get('msg'), again.get('violation') or again.get('harness')), flush=True)
            else:
                i, r, tried = new[0], results[new[0]], 0
                v, plan = r['violation'], r.get('plan') or mod.gen(rng_.stream(seed, prop, new[0]), new[0])
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            replay = os.path.join('replays', '%s-seed%d-run%d.json' % (prop, seed, i))
            with open(os.path.join(VERIF, replay), 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'run': i, 'lanes': r['lanes'],
                           'violation': v, 'shrink_attempts': tried, 'plan': plan}, f, indent=1, default=str)
            print('%s: %s' % (v.get('kind'), v.get('msg')), flush=True)
        evidence(prop, tier, seed, sim, results, t2 - t1, time.monotonic() - t0, len(new))
        if new:
            print('VIOLATION property=%s replay=%s' % (prop, replay), flush=True)
            return 1
        print('ok: %d runs in %.1f s (build and start %.1f s)' % (len(results), t2 - t1, t1 - t0))
        return 0
    finally:
        sim.close()


def evidence(prop, tier, seed, sim, results, sim_s, wall, violations):
    stats, sets = {}, {}
    samples = []
    for i in sorted(results):
        r = results[i]
        for k, v in r.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r.get('sets', {}).items():
            sets.setdefault(k, set()).update(map(str, v))
        if r.get('sample') is not None and len(samples) < 3:
            samples.append({'run': i, 'lanes': r['lanes'], 'case': r['sample']})
    mod = sim.mod
    group = lambda p: {k[len(p):]: v for k, v in sorted(stats.items()) if k.startswith(p)}
    cov = {
        'evaluations': len(results),
        'distinct_nontrivial': len(sets.get('distinct', ())),
        'rule': mod.RULE + ' evaluations counts simulated runs.',
        'samples': samples or ['none'],
        'seeds_per_hour': round(len(results) / max(sim_s, 1e-6) * 3600),
        'simulated_time': '%d logical steps (events of the code under test); the code has no timers, '
                          'clock values are drawn by the simulator where it reads a clock' % stats.get('steps', 0),
        'faults_injected': group('fault:'),
        'operations': group('op:'),
        'probes': group('probe:'),
        'distinct_measures': {k: len(v) for k, v in sorted(sets.items())},
        'other_counts': {k: v for k, v in sorted(stats.items()) if ':' not in k},
        'components': mod.COMPONENTS,
        'address_space_randomisation_off': sim.aslr_off,
        'violations_known': sum(1 for r in results.values() if r.get('violation')) - violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump({
            'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
            'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 2), 'violations': violations,
        }, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


def replay(path):
    d = json.load(open(path))
    sim = Sim(d['property'], sorted(set(d['lanes'])))
    try:
        r = sim.execute({'plan': d['plan']}, d['lanes'])
        if r.get('harness'):
            print(r['harness'])
            return 2
        v = r.get('violation')
        if v:
            print('%s: %s' % (v.get('kind'), v.get('msg')))
            print('identical to the recorded violation' if v == d['violation']
                  else 'recorded: %s: %s' % (d['violation'].get('kind'), d['violation'].get('msg')))
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        print('no violation')
        return 0
    finally:
        sim.close()


def selftest(prop, n):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    a = Sim(prop)
    try:
        r1 = a.batch(seed, range(n), time.monotonic() + 3600)
    finally:
        a.close()
    b = Sim(prop)
    try:
        r2 = b.batch(seed, reversed(range(n)), time.monotonic() + 3600)
    finally:
        b.close()
    bad = [i for i in range(n) if r1.get(i, {}).get('digests') != r2.get(i, {}).get('digests')
           or r1.get(i, {}).get('violation') != r2.get(i, {}).get('violation')]
    print('%s: %d runs twice, %d differ %s' % (prop, n, len(bad), bad[:10]))
    return 2 if bad else 0


def main(argv):
    try:
        if argv[0] == 'check':
            return check(argv[1])
        if argv[0] == 'replay':
            return replay(argv[1])
        if argv[0] == 'selftest':
            return selftest(argv[1], int(argv[2]) if len(argv) > 2 else 64)
        if argv[0] == 'setup':
            print(build_.build(True))
            build_.build_native('memsim')
            build_.build_native('fsim')
            build_.mpl_cache()
            return 0
        print(__doc__)
        return 2
    except (HarnessError, build_.BuildError) as e:
        print('ERROR: %s' % e, flush=True)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
