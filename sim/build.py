"""Build the code under test from /repo's current working tree.

The package is copied out of /repo/src into /verif/.cache/tree-<hash>/ and its
Cython extensions are compiled there, so /repo itself is never written to.  Each
extension is keyed by the content of everything that can influence it (its .pyx,
every .pxd/.pxi, setup.py, the interpreter, Cython and numpy), so an extension is
recompiled exactly when its source differs from what the object was made from.
An in-place object of /repo is re-used only if /repo's own build recorded exactly
the present content of all those sources.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('JPT_SIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/venv/bin/python'
EXT = '.cpython-312-x86_64-linux-gnu.so'


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def _sources():
    """relative path (to REPO/src) -> bytes, for everything that makes up the package"""
    result = {}
    root = os.path.join(REPO, 'src')
    for base, dirs, files in os.walk(os.path.join(root, 'jpt')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith(('.so', '.cpp', '.c', '.pyc', '.o', '.html')):
                continue
            p = os.path.join(base, f)
            result[os.path.relpath(p, root)] = _read(p)
    return result


def _recorded_sums():
    p = os.path.join(REPO, 'build', '.source-sums')
    try:
        return {
            line[66:].strip(): line[:64]
            for line in _read(p).decode().splitlines() if line
        }
    except OSError:
        return {}


_COMPILE = r'''
import sys, os, numpy
from Cython.Build import cythonize
from Cython.Compiler import Options
os.chdir(sys.argv[1])
cythonize([sys.argv[2]], language='c++', include_path=[numpy.get_include()], quiet=True, nthreads=0)
'''


def _compile(tree, rel):
    """returns Popen chain compiling one extension in `tree` (a scratch copy)"""
    import numpy
    cpp = rel[:-4] + '.cpp'
    out = rel[:-4] + EXT
    inc = sysconfig.get_paths()['include']
    script = os.path.join(tree, '_compile.py')
    with open(script, 'w') as f:
        f.write(_COMPILE)
    cmd = (
        'set -e; cd "{tree}"; "{py}" -W ignore "{code}" "{tree}" "{rel}" >/dev/null 2>"{rel}.log"; '
        'g++ -O1 -fno-strict-overflow -fwrapv -DNDEBUG -fPIC -shared -w -I"{inc}" -I/opt/venv/include '
        '-I"{npy}" "{cpp}" -o "{out}" 2>>"{rel}.log"'
    ).format(tree=tree, py=PY, code=script, rel=rel, cpp=cpp, out=out, inc=inc,
             npy=numpy.get_include())
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen(['bash', '-c', cmd], env=env, stdin=subprocess.DEVNULL)


def build(verbose=False):
    """-> path of a directory to put on sys.path, holding the current tree, compiled"""
    import numpy
    import Cython
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src = _sources()
        setup = _read(os.path.join(REPO, 'setup.py'))
        base = [sys.version, numpy.__version__, Cython.__version__]
        tree_key = _sha(*base, setup, *[x for k in sorted(src) for x in (k, src[k])])[:24]
        tree = os.path.join(CACHE, 'tree-' + tree_key)
        if os.path.exists(os.path.join(tree, '.complete')):
            return tree
        if os.path.exists(tree):
            shutil.rmtree(tree)
        for k, data in src.items():
            p = os.path.join(tree, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
        pxd = [x for k in sorted(src) if k.endswith(('.pxd', '.pxi')) for x in (k, src[k])]
        sums = _recorded_sums()

        def recorded(name, data):
            return sums.get(name) == hashlib.sha256(data).hexdigest()

        shared_ok = recorded('setup.py', setup) and all(
            recorded('src/' + k, src[k]) for k in src if k.endswith(('.pxd', '.pxi'))
        )
        todo = []
        for rel in sorted(k for k in src if k.endswith('.pyx')):
            key = _sha(*base, setup, rel, src[rel], *pxd)[:24]
            obj = os.path.join(CACHE, 'obj-%s%s' % (key, EXT))
            if not os.path.exists(obj):
                inplace = os.path.join(REPO, 'src', rel[:-4] + EXT)
                if shared_ok and recorded('src/' + rel, src[rel]) and os.path.exists(inplace):
                    shutil.copyfile(inplace, obj + '.tmp')
                    os.replace(obj + '.tmp', obj)
                else:
                    todo.append((rel, obj))
                    continue
            shutil.copyfile(obj, os.path.join(tree, rel[:-4] + EXT))
        if todo and verbose:
            print('building', ', '.join(r for r, _ in todo), flush=True)
        procs = [(rel, obj, _compile(tree, rel)) for rel, obj in todo]
        failed = []
        for rel, obj, p in procs:
            p.wait()
            so = os.path.join(tree, rel[:-4] + EXT)
            if p.returncode or not os.path.exists(so):
                log = os.path.join(tree, rel + '.log')
                failed.append('%s: %s' % (rel, _read(log).decode(errors='replace')[-3000:]
                                          if os.path.exists(log) else '?'))
                continue
            shutil.copyfile(so, obj + '.tmp')
            os.replace(obj + '.tmp', obj)
        if failed:
            shutil.rmtree(tree)
            raise BuildError('\n'.join(failed))
        for base_, _, files in os.walk(tree):
            for f in files:
                if f.endswith(('.cpp', '.log')) or f == '_compile.py':
                    os.unlink(os.path.join(base_, f))
        with open(os.path.join(tree, '.complete'), 'w'):
            pass
        _prune(tree)
        return tree
    finally:
        lock.close()


def mpl_cache():
    """directory holding matplotlib's font list, so that no lane has to search the disk for fonts"""
    d = os.path.join(CACHE, 'mpl')
    with open(os.path.join(CACHE, 'mpl.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, '.complete')):
            os.makedirs(d, exist_ok=True)
            subprocess.run(
                [PY, '-W', 'ignore', '-c', 'import matplotlib.font_manager'], stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL,
                env=dict(os.environ, MPLCONFIGDIR=d, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'))
            with open(os.path.join(d, '.complete'), 'w'):
                pass
    return d


def _prune(keep, n_trees=3, n_objs=40):
    entries = sorted(
        (os.path.join(CACHE, e) for e in os.listdir(CACHE)), key=os.path.getmtime, reverse=True
    )
    for prefix, n in (('tree-', n_trees), ('obj-', n_objs)):
        for p in [e for e in entries if os.path.basename(e).startswith(prefix)][n:]:
            if p != keep:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def build_native(name, flags=()):
    """compile a small C helper of the simulator (sim/native/<name>.c) -> path of the .so"""
    import numpy
    src = os.path.join(VERIF, 'sim', 'native', name + '.c')
    key = _sha(_read(src), sys.version, numpy.__version__, *flags)[:16]
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, 'native-' + key)
    out = os.path.join(d, name + '.so')
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(
            ['gcc', '-O1', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fPIC', '-shared', '-w', '-I' + sysconfig.get_paths()['include'],
             '-I' + numpy.get_include(), *flags, src, '-o', tmp, '-ldl'],
            capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        os.replace(tmp, out)
    return out


if __name__ == '__main__':
    print(build(verbose=True))
