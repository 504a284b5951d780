"""C07: whatever happens during a save, the path holds the previous model or the new one, complete."""
import ctypes
import errno
import os
import signal
import struct

import ops
import rng as rng_
import shrinkers
import simsched
import worlds

RUNS = {'quick': 320, 'thorough': 20000}
LEVEL = 'fault_enumeration'
RULE = ('one evaluation = one save of one model over another one (or over nothing), executed once per fault: every file '
        'operation of it is a crash point (before, after, and within it for writes), an I/O error, a moment at which another '
        'process or thread saves to the same path, and the last operation before a power failure that keeps an arbitrary '
        'part of what was not synchronised; plus full disks and asynchronous exceptions; non-trivial = at least one fault '
        'fired; distinct by (fault, operation, what is saved over what, protocol, target)')
COMPONENTS = {
    'real': ['jpt (all Python and compiled parts)', 'numpy, pandas, pickle, json', 'CPython I/O stack'],
    'simulated': ['disk: operations at the libc boundary fail, are torn, are split up, or are the last of the process; '
                  'what survives a power failure is computed from the log of operations', 'full disk',
                  'asynchronous exceptions', 'other savers to the same path at every operation'],
}
ASSUMPTIONS = ['a power failure keeps names in the order in which they were changed (journalled directory) and loses or '
               'tears any data that was not synchronised', 'a rename is atomic for other processes']
ERRNOS = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EROFS, errno.EMFILE, errno.EINTR, errno.EAGAIN]
KINDS = ['', 'open', 'write', 'read', 'close', 'fsync', 'truncate', 'rename', 'unlink', 'link', 'mkdir', 'rmdir', 'symlink']


def gen(rng, idx):
    w = worlds.gen_world(rng, n=rng.choice([6, 10, 15, 30]))
    return {'world': w, 'old': rng.choice(['other', 'other', 'other', 'same', 'none']),
            'protocol': rng.choice(['pickle', 'json']), 'api': rng.choice(['save', 'save', 'save', 'pickle']),
            'old_protocol': rng.choice(['pickle', 'json']),
            'target': rng.choice(['plain', 'plain', 'relative', 'symlink', 'dangling', 'nodir']),
            'chop': rng.choice([0, 0, 0, 1500, 5000]), 'seed': rng.getrandbits(32),
            'asyncs': rng.randint(0, 6), 'only': None}


class Failed(Exception):
    pass


class Save:
    """the save under test and the directory it happens in"""

    def __init__(self, plan, env):
        self.plan, self.env = plan, env
        self.root = os.path.join(os.environ['JPT_SIM_SCRATCH'], 'c07')
        self.dir = os.path.join(self.root, 'd')
        self.proto = 'pickle' if plan['api'] == 'pickle' else plan['protocol']
        self.name = os.path.join(self.dir, 'model')
        self.real = os.path.join(self.root, 'e', 'stored') if plan['target'] in ('symlink', 'dangling') else self.name
        if plan['target'] == 'nodir':
            self.name = self.real = os.path.join(self.dir, 'missing', 'model')
        if plan['target'] == 'relative':
            self.name = 'model'
        self.old = None

    def reset(self):
        self.env.fs.fs_disarm()
        self.env.fs.fs_clear()
        _clear(self.root)
        os.makedirs(self.dir)
        os.makedirs(os.path.join(self.root, 'e'))
        if self.plan['target'] in ('symlink', 'dangling'):
            os.symlink(self.real, self.name)
        os.chdir(self.dir)
        if self.old is not None:
            with open(self.real, 'wb') as f:
                f.write(self.old)

    def files(self):
        res = []
        for d, ds, fs in os.walk(self.root):
            res += [os.path.relpath(os.path.join(d, f), self.root) for f in fs + ds]
        return sorted(res)

    def arm(self):
        self.env.fs.fs_arm(self.root.encode())
        if self.plan['chop']:
            self.env.fs.fs_knobs(self.plan['chop'], 0, -1)

    def go(self, model):
        if self.plan['api'] == 'pickle':
            model.pickle(self.name)
        else:
            model.save(self.name, protocol=self.proto)

    def content(self):
        try:
            with open(self.real, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None


def _clear(d):
    for p, ds, fs in os.walk(d, topdown=False):
        for f in fs:
            os.unlink(os.path.join(p, f))
        for x in ds:
            x = os.path.join(p, x)
            os.unlink(x) if os.path.islink(x) else os.rmdir(x)
    if os.path.isdir(d):
        os.rmdir(d)


def read_log(env):
    n = env.fs.fs_log_size()
    if n < 0:
        raise RuntimeError('log of file operations overflowed')
    b = ctypes.string_at(env.fs.fs_log(), n)
    pos, res = 0, []

    def i64():
        nonlocal pos
        v = struct.unpack_from('<q', b, pos)[0]
        pos += 8
        return v

    def data():
        nonlocal pos
        k = i64()
        pos += k
        return b[pos - k:pos]
    while pos < n:
        kind, fd, x, y = i64(), i64(), i64(), i64()
        p, q, d = data().decode(), data().decode(), data()
        res.append((kind, fd, x, y, p, q, d, i64()))
    return res


def describe(o):
    return '%s(%s)' % (KINDS[o[0]], ', '.join(x for x in (os.path.basename(o[4]), os.path.basename(o[5])) if x) or 'fd')


def survivors(s, log, rng, how):
    """content of the target after a power failure that follows the operations `log`"""
    names = [(None, {s.real: 0} if s.old is not None else {})]     # (directory, namespace) after each change of names
    synced = 0
    data = {0: [('w', 0, s.old or b'', True)]}                       # per file: changes and whether they are durable
    fds, n = {}, 1

    def change(d, ns):
        names.append((d, ns))
    for kind, fd, x, y, p, q, d, r in log:
        ns = names[-1][1]
        if r < 0:
            continue
        if kind == 1:
            p = os.path.realpath(p) if p == s.name else p
            if os.path.isdir(p):
                fds[fd] = p
                continue
            if p not in ns:
                if not x & os.O_CREAT and not x & os.O_TMPFILE == os.O_TMPFILE:
                    continue
                data[n] = []
                if not x & os.O_TMPFILE == os.O_TMPFILE:
                    change(os.path.dirname(p), {**ns, p: n})
                fds[fd] = n
                n += 1
            else:
                fds[fd] = ns[p]
                if x & os.O_TRUNC:
                    data[ns[p]].append(('t', 0, b'', False))
        elif kind == 2 and fd in fds:
            data[fds[fd]].append(('w', x, d, False))
        elif kind == 4:
            fds.pop(fd, None)
        elif kind == 5 and fd in fds:
            f = fds[fd]
            if isinstance(f, str):
                synced = len(names) - 1
            else:
                data[f] = [(*c[:3], True) for c in data[f]]
        elif kind == 6:
            f = fds.get(fd) if fd >= 0 else ns.get(p)
            if isinstance(f, int):
                data[f].append(('t', x, b'', False))
        elif kind == 7:
            m = {a: b for a, b in ns.items() if a != p}
            if p in ns:
                m[q] = ns[p]
                change(os.path.dirname(q), m)
        elif kind == 8:
            change(os.path.dirname(p), {a: b for a, b in ns.items() if a != p})
        elif kind == 9 and p in ns:
            change(os.path.dirname(q), {**ns, q: ns[p]})
    last = len(names) - 1
    k = last if how == 'names' else synced if how == 'nothing' else rng.randint(synced, last)
    f = names[k][1].get(s.real)
    if f is None:
        return None
    out = bytearray()
    for c, at, d, durable in data[f]:
        keep = durable or how == 'data' or (how == 'some' and rng.random() < .5)
        if not keep:
            if how != 'some' or c == 't' or rng.random() < .5:
                continue
            d = d[:rng.randrange(len(d) + 1)]
        if c == 't':
            del out[at:]
            out.extend(b'\0' * (at - len(out)))
        else:
            if len(out) < at:
                out.extend(b'\0' * (at - len(out)))
            out[at:at + len(d)] = d
    return bytes(out)


def run(plan, env, stage, carry):
    from jpt.trees import JPT
    w = plan['world']
    env.fs.fs_init()
    rng = rng_.stream(plan['seed'], 'c07')
    new = env.build(w)
    before = env.canon(new)
    s = Save(plan, env)
    out = {'sample': {'protocol': s.proto, 'api': plan['api'], 'old': plan['old'], 'target': plan['target'], 'chop': plan['chop']},
           'sets': {'distinct': []}}
    other = None
    try:
        other = worlds.learn(dict(w, derive=[]), rows=(w['rows'][::2] + w['rows'][:1]) * 2)
    except Exception:
        other = new.copy()
    s.reset()
    if plan['old'] != 'none' and plan['target'] not in ('dangling', 'nodir'):
        (new if plan['old'] == 'same' else other).save(s.real, protocol=plan['old_protocol'])
        s.old = s.content()
    canons = {}

    def verdict(content, only_new=False, extra=()):
        """None if `content` is a complete model out of those that may be there"""
        if content == s.new or (not only_new and content == s.old) or content in extra:
            return None
        if content is None:
            return 'no file'
        # not the same bytes; is it the same model?
        if content not in canons:
            def load():
                import io
                p = s.proto if plan['old_protocol'] == s.proto or only_new else None
                for proto in ([p] if p else ['pickle', 'json']):
                    try:
                        return env.canon(JPT.load(io.BytesIO(content) if proto == 'pickle' else io.StringIO(content.decode()), protocol=proto))
                    except Exception:
                        pass
                return None
            canons[content] = env.fork(load)[1]
        c = canons[content]
        if c is not None and (not env.canon_diff(before, c, 0) or (not only_new and s.old is not None and plan['old'] != 'none'
                                                                    and not env.canon_diff(old_canon, c, 0))):
            return None
        return '%d bytes (previous model: %s, new model: %d) that are neither' % (
            len(content), None if s.old is None else len(s.old), len(s.new))

    old_canon = None if s.old is None else env.canon(new if plan['old'] == 'same' else other)

    def healthy(model):
        def go():
            s.arm()
            try:
                s.go(model)
            except Exception as e:
                return ['raises %s: %s' % (type(e).__name__, e), env.fs.fs_ops()]
            n = env.fs.fs_ops()
            env.fs.fs_disarm()
            return [None, n]
        s.reset()
        return env.solo(go)
    files0 = (s.reset(), s.files())[1]
    s.new = b''
    err, n = healthy(new)
    files1 = s.files()
    log = read_log(env)

    def bad(kind, site, msg):
        out['violation'] = {'kind': kind, 'site': site, 'msg': msg}
        return out
    if plan['target'] == 'nodir':
        env.count('op:save to a missing directory')
        if err is None:
            return bad('error', 'nodir', 'a save to a directory that does not exist returns as if it had succeeded')
        if files1 != files0:
            return bad('files', 'nodir', 'a failing save leaves %s' % sorted(set(files1) - set(files0)))
        return out
    if err:
        return bad('error', 'healthy', 'a save to a healthy disk ' + err)
    s.new = s.content()
    if s.new is None:
        return bad('content', 'healthy', 'after a save to a healthy disk there is no file')
    got = env.fork(lambda: env.canon(JPT.load(s.name, protocol=s.proto)))
    if got[0] != 'ok':
        return bad('content', 'healthy', 'what a save to a healthy disk stored cannot be loaded: %s' % (got,))
    d = env.canon_diff(before, got[1], 0)
    if d:
        return bad('content', 'healthy', 'what a save to a healthy disk stored is another model: %s' % d)
    extra = set(files1) - set(files0) - {os.path.relpath(s.real, s.root)}
    if extra:
        return bad('files', 'healthy', 'a save to a healthy disk leaves %s behind' % sorted(extra))
    healthy(other)
    other_bytes = s.content()
    env.event(n, len(s.new), len(s.old or b''))
    env.count('steps', n)

    def cases():
        for k in range(1, n + 1):
            o = describe(log[k - 1]) if k <= len(log) else '?'
            writes = k <= len(log) and log[k - 1][0] == 2
            yield 'crash before', k, o, (3, 0)
            yield 'crash after', k, o, (4, 0)
            if writes:
                for _ in range(2):
                    yield 'torn write', k, o, (2, rng.getrandbits(30))
                yield 'short write', k, o, (5, rng.getrandbits(30))
            for e in rng.sample(ERRNOS, 2):
                yield 'error ' + errno.errorcode[e], k, o, (1, e)
            yield 'two errors', k, o, (1, rng.choice(ERRNOS[:4]))
            yield rng.choice(['other process', 'other thread']), k, o, (6, 0)
            if k <= len(log) and KINDS[log[k - 1][0]] in ('write', 'fsync'):
                yield 'signal', k, o, (6, 0)
        for c in sorted({0, 1, len(s.new) // 2, len(s.new) - 1, rng.randrange(len(s.new))}):
            yield 'full disk', c, 'write', None
        for _ in range(plan['asyncs']):
            yield rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit']), rng.random(), 'python', None
        yield 'in order', 0, '', None

    for num, (what, k, o, fault) in enumerate(cases()):
        if plan['only'] is not None and num not in plan['only']:
            continue
        sub = rng_.stream(plan['seed'], 'case', num)
        at2 = k + 1 + sub.randrange(2)
        s.reset()
        calls = []

        def go():
            cb = None
            if fault and fault[0] == 6:
                def other_saver():
                    if what == 'other thread':
                        s.go(other)
                        calls.append(None)
                    else:
                        calls.append(env.fork(lambda: s.go(other)))
                cb = ctypes.CFUNCTYPE(None)(other_saver)
                if what == 'signal':      # arrives during the system call, becomes a KeyboardInterrupt right after
                    signal.signal(signal.SIGINT, signal.default_int_handler)
                    cb = ctypes.cast(ctypes.pythonapi.PyErr_SetInterrupt, ctypes.CFUNCTYPE(None))
                env.fs.fs_callback(cb)
            tr = None
            if fault is None and o == 'python':
                def dry():
                    with simsched.Tracer(env.prefix) as t:
                        s.go(new)
                    return t.n
                steps = env.solo(dry)
                s.reset()                 # (this process changes into the new directory itself)
                tr = simsched.Tracer(env.prefix, False, (1 + int(k * steps), what))
            s.arm()
            if fault:
                env.fs.fs_fault(k, *fault)
                if what == 'two errors':
                    env.fs.fs_fault(at2, 1, errno.EIO)
            elif what == 'full disk':
                env.fs.fs_knobs(plan['chop'], 0, k)
            how = None
            try:
                if tr:
                    with tr:
                        s.go(new)
                else:
                    s.go(new)
            except BaseException as e:
                how = '%s: %s' % (type(e).__name__, e)
            fired = env.fs.fs_fired()
            env.fs.fs_disarm()
            res = {'how': how, 'fired': fired, 'mem': env.canon_diff(before, env.canon(new), 0), 'files': s.files(),
                   'calls': calls}
            c = s.content()
            res['now'] = verdict(c, how is None and not calls, (other_bytes,) if calls else ())
            if how is not None and sub.random() < .5:
                env.fs.fs_clear()
                try:
                    s.go(new)
                    res['again'] = None if s.content() == s.new else verdict(s.content(), True)
                except BaseException as e:
                    res['again'] = '%s: %s' % (type(e).__name__, e)
            return res
        got = env.fork(go)
        site = what.split(' E')[0]
        where = '%s at operation %s of %d (%s)' % (what, k, n, o)
        if got[0] == 'exit' and got[1] == 77:                    # the crash
            env.count('fault:' + what)
            out['sets']['distinct'].append('%s/%s/%s/%s/%s' % (what, o.split('(')[0], plan['old'], s.proto, plan['target']))
            v = verdict(s.content())
            if v:
                return bad('content', site, '%s: the path holds %s' % (where, v))
        elif got[0] != 'ok':
            return bad('crash', site, '%s: %s' % (where, got))
        else:
            r = got[1]
            if r['fired'] or o == 'python':
                env.count('fault:' + what)
                out['sets']['distinct'].append('%s/%s/%s/%s/%s' % (what, o.split('(')[0], plan['old'], s.proto, plan['target']))
            env.event(num, what, r['how'] and r['how'].split(':')[0])
            if r['now']:
                return bad('content', site, '%s, the save %s: the path holds %s' % (
                    where, 'raises ' + r['how'] if r['how'] else 'returns', r['now']))
            if r['mem']:
                return bad('memory', site, '%s: the model changed: %s' % (where, r['mem']))
            if r.get('again'):
                return bad('retry', site, '%s: saving again: %s' % (where, r['again']))
            rest = set(r['files']) - set(files1)
            if rest and o != 'python' and what != 'two errors':
                return bad('files', site, '%s: left behind: %s' % (where, sorted(rest)))
            if calls and calls[0] and calls[0][0] != 'ok':
                return bad('error', site, '%s: the other saver: %s' % (where, calls[0]))
            if r['how'] and what in ('other process', 'other thread', 'short write'):
                return bad('error', site, '%s: the save raises %s' % (where, r['how']))
            if what in ('other process', 'other thread', 'short write'):
                continue
        # and then the power fails
        lg = read_log(env)
        done = got[0] == 'ok' and got[1]['how'] is None
        for how in ('nothing', 'names', 'data', 'some', 'some'):
            part = lg
            if what == 'in order' and how != 'nothing':
                part = lg[:sub.randint(0, len(lg))]
            c = survivors(s, part, sub, how)
            v = verdict(c, done and part is lg)
            env.count('fault:power failure')
            if v:
                return bad('power', site, '%s%s, then a power failure that %s: the path holds %s' % (
                    where, ', the save returned' if done and part is lg else '',
                    {'nothing': 'loses all that is not synchronised', 'names': 'keeps names but no unsynchronised data',
                     'data': 'keeps data', 'some': 'keeps some of the data'}[how], v))
    return out


def shrink(plan):
    if plan['only'] is None:
        for i in range(400):
            yield dict(plan, only=[i])
            if i > 200:
                break
    for k, v in (('chop', 0), ('target', 'plain'), ('old', 'other'), ('api', 'save'), ('protocol', 'json'), ('old_protocol', 'json')):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    yield from shrinkers.world(plan)
