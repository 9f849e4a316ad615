"""Builds the C extension from /repo/c's current working tree and makes
``import euphonic`` use /repo's Python sources together with that build.

Nothing is written inside /repo; objects live in /verif/.build/<hash>/."""
import fcntl
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig

REPO = os.environ.get('EUPHONIC_MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout + p.stderr)


def _sources():
    return sorted(glob.glob(os.path.join(REPO, 'c', '*.c')))


def _digest(flavour):
    import numpy
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, 'c', '*.[ch]')))
    files += sorted(glob.glob(os.path.join(HERE, 'csched', '*')))
    for f in files:
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update((flavour + numpy.__version__ + sys.version).encode())
    return h.hexdigest()[:20]


def build(flavour='plain'):
    """Compile the extension. flavour 'plain': as setup.py does.
    'sched': every memory access instrumented, OpenMP replaced by the
    controlled scheduler in csched/."""
    import numpy
    out = os.path.join(BUILD, flavour + '-' + _digest(flavour))
    so = os.path.join(out, '_euphonic' + sysconfig.get_config_var('EXT_SUFFIX'))
    if os.path.exists(so):
        return so
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        inc = ['-I', sysconfig.get_config_var('INCLUDEPY'),
               '-I', numpy.get_include(), '-I', os.path.join(REPO, 'c')]
        base = ['gcc', '-fno-strict-overflow', '-DNDEBUG', '-fwrapv', '-fPIC',
                '-w', '-fopenmp']
        objs = []
        procs = []
        for src in _sources():
            obj = os.path.join(out, os.path.basename(src) + '.o')
            objs.append(obj)
            if flavour == 'plain':
                cmd = base + ['-O2']
            elif flavour == 'sched':
                cmd = base + ['-O1', '-g', '-fno-builtin', '-fsanitize=thread']
            elif flavour == 'asan':
                cmd = base + ['-O1', '-g', '-fsanitize=address']
            cmd = cmd + inc + ['-c', src, '-o', obj]
            procs.append((cmd, subprocess.Popen(
                cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                text=True)))
        for cmd, p in procs:
            txt = p.communicate()[0]
            if p.returncode:
                raise BuildError(' '.join(cmd) + '\n' + txt)
        tmp = so + '.tmp'
        if flavour == 'plain':
            _run(['gcc', '-shared', '-fopenmp', '-o', tmp] + objs)
        elif flavour == 'asan':
            _run(['gcc', '-shared', '-fopenmp', '-O1', '-g', '-fPIC',
                  '-fsanitize=address', '-Wl,--wrap=get_zheevd', '-o', tmp,
                  os.path.join(HERE, 'csched', 'zheevd_access.c')] + objs)
        else:
            rt = os.path.join(out, 'runtime.o')
            _run(base + ['-O2'] + inc + ['-c', os.path.join(
                HERE, 'csched', 'runtime.c'), '-o', rt])
            wraps = ['memset', 'memcpy', 'memmove', 'malloc', 'calloc',
                     'realloc', 'free', 'get_zheevd']
            _run(['gcc', '-shared', '-Wl,-Bsymbolic', '-o', tmp]
                 + ['-Wl,--wrap=' + w for w in wraps]
                 + objs + [rt, '-lgomp', '-lpthread', '-lm'])
        os.replace(tmp, so)
    return so


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path, target=None):
        if name != 'euphonic._euphonic':
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, self.so)
        return importlib.util.spec_from_file_location(
            name, self.so, loader=loader)


def activate(flavour='plain'):
    """Put /repo first on sys.path and route euphonic._euphonic to a build of
    the current C sources."""
    so = build(flavour)
    assert 'euphonic' not in sys.modules
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(so))
    import euphonic
    assert os.path.dirname(os.path.abspath(euphonic.__file__)) == \
        os.path.join(os.path.abspath(REPO), 'euphonic'), euphonic.__file__
    return so
