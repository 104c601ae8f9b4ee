"""Child process of C22, started with the fault library preloaded.
usage: faultchild.py LIB JOB.json OUT.json;  job: {'dir', 'config', 'faults': [[n, mode], ...]}"""
import ctypes
import json
import os
import re
import shutil
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
LIB = sys.argv[1]
sys.path.insert(0, LIB)

from mc import stage  # noqa: E402
stage.stage = lambda *a, **k: LIB
from mc import proj  # noqa: E402
import pytornado.stdfun.run  # noqa: E402,F401
import matplotlib  # noqa: E402
matplotlib.use('Agg')
import matplotlib.figure as mf  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402

orig = mf.Figure.savefig
mf.Figure.savefig = lambda self, fname, *a, **k: orig(self, fname, *a, **dict(k, dpi=12))
plt.show = lambda *a, **k: None
MODES = {'error': 0, 'short': 1, 'crash': 2, 'torn': 3, 'full': 4}
shim = ctypes.CDLL(None)
shim.shim_trace.restype = ctypes.c_char_p


def run_once(root, argv, n, mode):
    """-> (ended 'ok'/'error'/'crash', detail, operations)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        os.dup2(nul, 2)
        res = ['error', 'unknown']
        try:
            main = LOADED['main']
            sys.argv = ['pytornado'] + argv
            os.chdir(root)
            LOADED['guard'](root)
            shim.shim_arm(os.fsencode(root), n, mode)
            try:
                main()
                res = ['ok', '']
            except SystemExit as e:
                res = ['ok', ''] if e.code in (None, 0) else ['error', f'exit {e.code}']
            except BaseException as e:
                res = ['error', f'{type(e).__name__}: {e}'[:200]]
            finally:
                shim.shim_disarm()
            c = shim.shim_count()
            ops = [shim.shim_trace(i).decode() for i in range(1, c + 1)]
            b = json.dumps(res + [ops]).encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        return ['crash', '', []]
    if not buf:
        return ['died', str(st), []]
    return json.loads(buf)


LOADED = {}


def main():
    from mc import cli
    job = json.load(open(sys.argv[2]))
    from mc.pt import P
    P.lib = LIB
    cli.load()
    LOADED['main'], LOADED['guard'] = P.cli.main, cli.guard
    base = job['dir']
    os.makedirs(base, exist_ok=True)
    from mc.props import c22
    root = os.path.join(base, 'p')

    def fresh():
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        return c22.project(root, job['config'])
    argv = fresh()
    inputs = {k: v for k, v in proj.tree(root).items() if not k.startswith(('_results', '_plots', 'log.txt'))}
    st, detail, ops = run_once(root, argv, 0, 0)
    ref = clean(proj.tree(root))
    out = {'reference': [st, detail], 'ops': ops, 'results': []}
    for n, mode in job['faults']:
        fresh()
        r = run_once(root, argv, n, MODES[mode])
        now = proj.tree(root)
        bad = sorted(k for k in inputs if now.get(k, 'gone') != inputs[k])
        late = sorted(k for k in ref if clean(now).get(k, 'gone') != ref[k]) if r[0] == 'ok' else []
        r2 = run_once(root, argv, 0, 0)
        again = clean(proj.tree(root))
        diff = sorted(k for k in set(ref) | set(again) if ref.get(k, 'gone') != again.get(k, 'gone'))
        out['results'].append({'n': n, 'mode': mode, 'end': r[0], 'detail': r[1], 'inputs': bad, 'again': r2[0], 'again_detail': r2[1], 'diff': diff, 'late': late})
    shutil.rmtree(root, ignore_errors=True)
    json.dump(out, open(sys.argv[3], 'w'))


def clean(t):
    """files without the log; names of plots carry the time, the latest of each is compared"""
    out = {}
    for k in sorted(t):
        if k != 'log.txt':
            out[re.sub(r'_[0-9_-]{19,}\.png$', '.png', k)] = t[k]
    return out


if __name__ == '__main__':
    main()
