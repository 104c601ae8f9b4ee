"""Runs the real command line (staged _pytornado_exe.py: main()) in a forked child of this process.

Deleting, moving and overwriting outside of the directory given as sandbox is refused and reported."""
import contextlib
import importlib.util
import logging
import os
import re
import shutil
import sys

from mc import proj, stage
from mc.explore import Fail
from mc.pt import P


def load():
    p = os.path.join(os.path.dirname(P.lib), 'bin', '_pytornado_exe.py')
    spec = importlib.util.spec_from_file_location('_pytornado_exe', p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    P.cli = m
    P.exe = p


class Escape(BaseException):
    pass


def guard(sandbox):
    """Patch the destructive calls of this (child) process"""
    box = os.path.realpath(sandbox)

    def inside(p):
        if isinstance(p, int):
            return True
        d, b = os.path.split(os.path.abspath(os.fsdecode(p)))
        return (os.path.join(os.path.realpath(d), b) + os.sep).startswith(box + os.sep)

    tmp = os.path.realpath(stage.scratch_root())

    def wrap(mod, name, paths):
        orig = getattr(mod, name)

        def f(*a, **k):
            if k.get('dir_fd') is None and k.get('src_dir_fd') is None:
                for i in paths:
                    if i < len(a) and not inside(a[i]) and not os.path.realpath(os.fsdecode(a[i])).startswith(tmp + '/mpl'):
                        raise Escape(f'{name}{a[i]!r} outside of the sandbox')
            return orig(*a, **k)
        setattr(mod, name, f)
    for n in ('remove', 'unlink', 'rmdir', 'truncate', 'removedirs', 'chmod'):
        wrap(os, n, (0,))
    for n in ('rename', 'replace', 'link'):
        wrap(os, n, (0, 1))
    wrap(shutil, 'rmtree', (0,))
    wrap(shutil, 'move', (0, 1))
    wrap(os, 'symlink', (1,))
    wrap(os, 'mkdir', (0,))
    import builtins
    import io
    for mod in (builtins, io):
        oo = mod.open

        def op(file, mode='r', *a, _o=oo, **k):
            if any(c in mode for c in 'wax+') and not isinstance(file, int) and not inside(file) and '/dev/' not in os.fsdecode(file):
                raise Escape(f'open({file!r}, {mode!r}) outside of the sandbox')
            return _o(file, mode, *a, **k)
        mod.open = op


def child(argv, cwd, sandbox, before=None):
    out = os.path.join(sandbox, '..', f'.out{os.getpid()}')
    fd = os.open(out, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = os.fdopen(1, 'w', closefd=False)
    sys.stderr = os.fdopen(2, 'w', closefd=False)
    os.chdir(cwd)
    logging.disable(logging.NOTSET)
    if before:
        before()
    guard(sandbox)
    sys.argv = ['pytornado'] + list(argv)
    exc = None
    try:
        P.cli.main()
        status = 0
    except SystemExit as e:
        status = 0 if e.code in (None, 0) else (e.code if isinstance(e.code, int) else 1)
        exc = 'SystemExit'
    except Escape as e:
        raise Fail('escape', f'{argv}: {e}')
    except MemoryError:
        raise
    except Exception as e:
        status, exc = 1, f'{type(e).__name__}: {e}'
    with contextlib.suppress(Exception):
        sys.stdout.flush()
        sys.stderr.flush()
    n = os.lseek(fd, 0, 1)
    txt = os.pread(fd, n, 0).decode(errors='replace')
    os.close(fd)
    return status, txt, exc


def run(argv, cwd, sandbox, before=None):
    """-> (exit status, output, exception)"""
    r = proj.unwrap(proj.isolated(child, argv, cwd, sandbox, before))
    d = os.path.join(sandbox, '..')
    for f in os.listdir(d):
        if f.startswith('.out'):
            with contextlib.suppress(OSError):
                os.unlink(os.path.join(d, f))
    return r


NUM = re.compile(rb'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?nan|[-+]?inf', re.I)


def same_text(a, b, rtol=1e-6):
    """equal up to rounding of numbers"""
    if a == b:
        return True
    if NUM.sub(b'#', a) != NUM.sub(b'#', b):
        return False
    x, y = ([float(n) for n in NUM.findall(t)] for t in (a, b))
    sc = max((abs(v) for v in x if v == v), default=0.0)
    return all(abs(p - q) <= rtol*abs(p) + 1e-9*min(sc, 1e6) or (p != p and q != q) for p, q in zip(x, y))
