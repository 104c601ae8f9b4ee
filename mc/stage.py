"""Stage the code under test.

Copies /repo's current Python package into a scratch directory, compiles the
C++ extension from /repo's current C++ sources into that copy and puts it in
front of sys.path.  /repo itself is never written to.
"""
import atexit
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None
_owner = None


class BuildError(Exception):
    pass


def scratch_root():
    """Directory removed when this process ends"""
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='ptmc-')
        _owner = os.getpid()
        atexit.register(cleanup)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def _compile(pkg, extra):
    import numpy as np
    aero = os.path.join(pkg, 'aero')
    srcs = sorted(glob.glob(os.path.join(aero, '*.cpp')))
    if not srcs:
        raise BuildError('no C++ sources')
    out = os.path.join(aero, 'c_vlm' + sysconfig.get_config_var('EXT_SUFFIX'))
    flags = ['-O2', '-fPIC', '-w', '-DNDEBUG', '-fwrapv'] + list(extra)
    h = hashlib.sha256()
    for f in srcs + sorted(glob.glob(os.path.join(aero, '*.h*'))):
        h.update(os.path.basename(f).encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    h.update(repr(flags).encode() + sys.version.encode() + np.__version__.encode())
    cache = os.path.join(VERIF, '.build', h.hexdigest()[:24] + '.so')
    if os.path.exists(cache):
        shutil.copy(cache, out)
        return
    inc = ['-I' + aero, '-I' + sysconfig.get_paths()['include'],
           '-I' + np.get_include(), '-I' + os.path.join(np.get_include(), 'numpy')]

    def one(src):
        obj = src + '.o'
        r = subprocess.run(['g++'] + flags + inc + ['-c', src, '-o', obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return obj, r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    for obj, r in res:
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
    r = subprocess.run(['g++', '-shared'] + list(extra) + [o for o, _ in res] + ['-o', out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    for obj, _ in res:
        os.unlink(obj)
    try:
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        tmp = cache + '.%d' % os.getpid()
        shutil.copy(out, tmp)
        os.replace(tmp, cache)
    except OSError:
        pass


def stage(activate=True, extra=(), name='src'):
    """Return the scratch 'lib' directory holding the staged package"""
    root = scratch_root()
    lib = os.path.join(root, name, 'lib')
    if not os.path.isdir(lib):
        shutil.copytree(os.path.join(REPO, 'src', 'lib', 'pytornado'), os.path.join(lib, 'pytornado'),
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', '*.o'))
        b = os.path.join(REPO, 'src', 'bin')
        if os.path.isdir(b):
            shutil.copytree(b, os.path.join(root, name, 'bin'))
        _compile(os.path.join(lib, 'pytornado'), extra)
    if activate:
        if lib not in sys.path:
            sys.path.insert(0, lib)
        sys.dont_write_bytecode = True
        import pytornado
        assert os.path.abspath(pytornado.__file__).startswith(root), pytornado.__file__
    return lib
