"""One lane: a process that has the package under test loaded and forks a child per run.

Every run starts from the identical process image, so a run is a function of its plan and of
the lane (which fixes the hash seed and the layout of memory) alone.
"""
import base64
import ctypes
import importlib
import json
import os
import re
import resource
import select
import signal
import struct
import sys
import time
import traceback

LANE = int(sys.argv[1])
TREE = sys.argv[2]
PROP = sys.argv[3]
MEMSIM = sys.argv[4]
CPU_LIMIT = int(os.environ.get('JPT_SIM_CPU', '60'))

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, TREE)
sys.dont_write_bytecode = True

_pad = [type('Pad%d' % i, (), {}) for i in range(LANE * 41)]   # moves everything that hashes by address

import logging
import warnings
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')

import hashlib
import subprocess

_entropy = [0]


def _urandom(n):                   # numpy.random seeds itself when imported; the size of its integers moves the heap
    data = b''
    while len(data) < n:
        _entropy[0] += 1
        data += hashlib.sha256(b'%d' % _entropy[0]).digest()
    return data[:n]


assert 'random' not in sys.modules
os.urandom = _urandom


def _no_processes(*_, **__):       # numpy.testing runs lscpu when imported; how its output arrives moves the heap
    raise FileNotFoundError('no processes in the simulation')


_popen, subprocess.Popen = subprocess.Popen, _no_processes
import numpy            # noqa: third-party code keeps its real locks
import pandas           # noqa
import scipy.stats      # noqa
import matplotlib       # noqa
import simsched
simsched.patch_locks()
import jpt              # noqa
import jpt.trees
import jpt.variables
import jpt.distributions
import jpt.sequential_trees
subprocess.Popen = _popen
assert jpt.__file__.startswith(TREE), jpt.__file__

import canon as canon_
import rng as rng_
import worlds


def quiet():
    import dnutils.logs as dl
    for lg in (jpt.trees.JPT.logger, jpt.sequential_trees.SequentialJPT.logger):
        try:
            lg.level = logging.CRITICAL + 10
        except Exception:
            pass


quiet()


class Skip(Exception):
    """the run cannot be judged, for a reason that is not this property's business"""


class Env:
    """what a simulated run may use"""

    def __init__(self):
        self.lane = LANE
        self.prefix = os.path.join(TREE, 'jpt') + os.sep
        self.canon = canon_.Canon()
        self.ms = ctypes.PyDLL(MEMSIM)
        self.ms.ms_span.argtypes = [ctypes.c_long]
        self.ms.ms_config.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_int, ctypes.c_long, ctypes.c_long]
        for n in ('ms_allocs', 'ms_failed', 'ms_filled'):
            getattr(self.ms, n).restype = ctypes.c_long
        try:
            fs = ctypes.CDLL(None)
            fs.fs_log.restype = ctypes.c_void_p
            for n in ('fs_ops', 'fs_fired', 'fs_log_size'):
                getattr(fs, n).restype = ctypes.c_int64
            fs.fs_fault.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int64]
            fs.fs_knobs.argtypes = [ctypes.c_int64] * 3
            self.fs = fs
        except AttributeError:
            self.fs = None
        self.swallowed = []
        self.canon_diff = canon_.diff
        self.stats = {}
        self.log = []
        self.Skip = Skip

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def build(self, w):
        """the model under test; a failure to make it is for other properties to judge"""
        try:
            return worlds.build(w)
        except Exception as e:
            raise Skip('no model: %s: %s' % (type(e).__name__, str(e)[:200]))

    def event(self, *what):
        """append to the event log of the run"""
        self.log.append(what)

    def fork(self, fn):
        """run fn() in a copy of this process; -> ('ok', value) | ('sig', n) | ('exc', text) | ('exit', code)"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = {'ok': fn()}
                except BaseException:
                    out = {'exc': traceback.format_exc()}
                data = json.dumps(out).encode()
                _write(w, data)
            except BaseException:
                os._exit(98)
            os._exit(0)
        os.close(w)
        data = _drain(r)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return 'sig', os.WTERMSIG(status)
        if os.WEXITSTATUS(status):
            return 'exit', os.WEXITSTATUS(status)
        out = json.loads(data)
        return ('ok', out['ok']) if 'ok' in out else ('exc', out['exc'])

    def solo(self, fn):
        """value of fn() computed in a copy of this process; a failure there is the harness'"""
        kind, val = self.fork(fn)
        if kind == 'sig':
            raise Skip('signal %d in reference execution' % val)
        if kind != 'ok':
            raise RuntimeError('%s in reference execution: %s' % (kind, val))
        return val


def _write(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view[:1 << 16])
        view = view[n:]


def _drain(fd):
    parts = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return b''.join(parts)
        parts.append(b)


ENV = Env()
mod = importlib.import_module('props.' + PROP.lower())
if hasattr(mod, 'warm'):
    mod.warm(ENV)


def unraisable(args):
    ENV.swallowed.append('%s in %r' % (getattr(args.exc_type, '__name__', '?'), str(args.object)[:120]))


def crash_site(text):
    """file and function of the library that raised the error of a formatted traceback, None if the simulator did"""
    sim = os.path.dirname(os.path.abspath(__file__)) + os.sep
    frames = re.findall(r'File "([^"]+)", line \d+, in (\S+)', text)
    own = [i for i, (f, _) in enumerate(frames) if f.startswith(sim)]
    rest = [(f, n) for f, n in frames[own[-1] + 1 if own else 0:] if f.startswith(ENV.prefix) or f.endswith('.pyx')]
    return '%s:%s' % (os.path.basename(rest[-1][0]), rest[-1][1]) if rest else None


def child(task):
    sys.unraisablehook = unraisable
    if task.get('addr'):
        return {'addr': [hex(id(jpt.variables.NumericVariable))[-6:], hex(id(jpt.distributions.Bool))[-6:]], 'stats': {}}
    out = {}
    if task.get('log'):
        simsched.TRACE = []
    try:
        if 'plan' in task:
            plan = task['plan']
        else:
            plan = mod.gen(rng_.stream(task['seed'], PROP, task['idx']), task['idx'])
        plan.setdefault('lane', LANE)
        res = mod.run(plan, ENV, task.get('stage', 0), task.get('carry')) or {}
        out.update(res)
        if 'seed' in task and (out.get('violation') or task.get('want_plan')):
            out['plan'] = plan
    except Skip as e:
        out['skipped'] = str(e)
        ENV.count('skipped')
    except BaseException as e:
        t = traceback.format_exc()
        site = crash_site(t)
        if site:
            # the library fails where nothing may fail
            out['violation'] = {'kind': 'crash', 'site': site, 'msg': '%s: %s (%s)' % (type(e).__name__, str(e).strip().splitlines()[-1:] or '', site)}
        else:
            out['harness'] = t
        try:
            out['plan'] = plan
        except NameError:
            pass
    out['stats'] = ENV.stats
    if task.get('log'):
        out['trace'] = simsched.TRACE
        out['log'] = ENV.log
    out['digest'] = rng_.derive(json.dumps(ENV.log, default=str)) if ENV.log else 0
    return out


def _exactly(fd, n):
    parts = []
    while n:
        b = os.read(fd, n)
        if not b:
            os._exit(97)
        parts.append(b)
        n -= len(b)
    return b''.join(parts)


def run_child(out):
    """one run, from reading its task to writing its result; the lane itself never touches either,
    so that every run starts from the same heap"""
    signal.alarm(5 * CPU_LIMIT)
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    task = json.loads(_exactly(0, struct.unpack('<q', _exactly(0, 8))[0]))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('JPT_SIM_DEBUG'):
        os.dup2(devnull, 2)
    else:
        import faulthandler
        faulthandler.enable()
    sys.stdout = open(os.devnull, 'w')
    try:
        data = json.dumps(child(task), default=str).encode()
    except BaseException:
        data = json.dumps({'harness': traceback.format_exc(), 'stats': {}}).encode()
    signal.alarm(0)
    _write(out, struct.pack('<q', len(data)) + data)
    os._exit(0)


def main():
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.write(out, b'ready\n')
    poll = select.poll()
    poll.register(0, select.POLLIN)
    while True:
        if not poll.poll()[0][1] & select.POLLIN:
            return
        pid = os.fork()
        if pid == 0:
            run_child(out)
        _, status = os.waitpid(pid, 0)
        if status:
            data = json.dumps(
                {'signal': os.WTERMSIG(status), 'stats': {}} if os.WIFSIGNALED(status) else
                {'harness': 'no result, status %s' % status, 'stats': {}}).encode()
            _write(out, struct.pack('<q', len(data)) + data)


if __name__ == '__main__':
    import gc
    gc.freeze()
    main()
