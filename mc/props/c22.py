"""C22: a failing file operation is reported and never damages input files."""
import json
import os
import subprocess
import sys

from mc import pt, gen, explore, stage, proj
from mc.pt import P, require
from mc.explore import Fail

LEVEL = 'fault_enumeration'
RULE = ('every file operation (open, read, write, close, creation of a directory or file) that the real command makes in the project directory x every kind of fault (error, torn write followed by an error, disk full '
        'from then on, process ends before the operation, process ends in the middle of it), injected below the Python interpreter by a preloaded library; after each, the exit status, every input file and a '
        'repetition without fault are compared with an undisturbed run. Distinct by command, operation and kind of fault.')
ASSUMPTIONS = ['faults of the log file need not be reported (Python logging goes on without it)', 'deleting old files is done by an external library that ignores errors', 'CPACS files are written by an external library',
               'faults are those the C library reports to the process; lost or reordered disk blocks are not modelled']
STALL = 400
MODES = {'open-r': ('error', 'crash'), 'read': ('error', 'crash'), 'open-w': ('error', 'crash', 'torn', 'full'), 'mkdir': ('error', 'crash', 'torn', 'full'), 'write': ('error', 'short', 'crash', 'torn', 'full'),
         'close': ('error', 'crash', 'full'), 'rename': ('error', 'crash', 'full')}
CHUNK = 40


def prepare(ctx):
    LIB['lib'] = stage.stage(activate=False)
    so = os.path.join(stage.scratch_root(), 'faultshim.so')
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'faultshim.c')
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', src, '-o', so, '-ldl'], check=True)
    LIB['so'] = so


LIB = {}


def bounds(ctx):
    return {'projects': list(configs(ctx.thorough)), 'faults_per_run': 1, 'kinds': MODES}


def configs(thorough):
    c = ['full', 'plots', 'again', 'clean', 'native3']
    return c + ['apm5', 'plots2'] if thorough else c


def project(root, name):
    """write the project, -> arguments of the command"""
    c = [pt.ctrl('f', 'flap', 's', 's', 0.3, 0.7, 0.7, 0.7, defl=5.0, deflm=-2.0)]
    af = ('NACA2412', 'NACA0012')
    files, sett, deform, states = {}, {}, None, [{}]
    off = {'save_results': {k: False for k in proj.SAVE_ALL}}
    if name in ('full', 'again', 'clean', 'apm5'):
        af = ('airfoils/blade.X', 'NACA0012')
        files['airfoils/blade.X'] = '# X\n' + ''.join('%.6f %.6f\n' % p for p in [(1, .001), (.7, .04), (.4, .06), (.1, .04), (0, 0), (.1, -.03), (.4, -.05), (.7, -.03), (1, -.001)])
        deform = {'w': [[x, y, z, 0.01*y, 0.02*y, 0.05*y*y, 0, 0, 0] for x, y, z in [(0.5, 0, 0), (0.6, 1, 0.1), (0.7, 2, 0.2), (0.8, 2.5, 0.3)]]}
        states = [{}, {'alpha': -3.0, 'beta': 2.0}] if name != 'apm5' else [{'alpha': float(a)} for a in range(5)]
    if name in ('plots', 'plots2'):
        plots = {'plots': ('geometry', 'results'), 'plots2': ('geometry', 'lattice', 'results', 'matrix_downwash')}[name]
        sett = {'plot': {p: {'save': True} for p in plots}}
        if name == 'plots':
            sett.update(off)
    if name == 'native3':
        states = [{}, {'airspeed': 50.0}, {'rate_P': 0.2}]
        sett = {'save_results': {'global': True, 'panelwise': False, 'aeroperformance': True, 'matrix_system': False}}
    spec = {'wings': [pt.wing('w', 2, [pt.seg('s', *gen.quad('tapered'), nc=2, ns=3, af=af)], c)]}
    sf = proj.write_project(root, spec, states, sett, files=files, deformation=deform)
    if name in ('again', 'clean'):
        for i in range(3):
            for f in ('global.json', 'panelwise.dat', 'matrix.dat', 'other'):
                proj._put(os.path.join(root, '_results', f'proj_{i:03d}', f), 'old '*2000)
        proj._put(os.path.join(root, '_results', 'proj_aeroperformance.json'), 'old '*2000)
    return ['--run', sf] + (['--clean'] if name == 'clean' else [])


def child(config, faults):
    d = proj.fresh_dir('fault')
    try:
        job, out = os.path.join(d, 'job.json'), os.path.join(d, 'out.json')
        os.makedirs(os.path.join(d, 'w'))
        json.dump({'dir': os.path.realpath(os.path.join(d, 'w')), 'config': config, 'faults': faults}, open(job, 'w'))
        env = dict(os.environ, LD_PRELOAD=LIB['so'], PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'faultchild.py'), LIB['lib'], job, out], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == -9:
            raise MemoryError('child killed')
        if r.returncode or not os.path.exists(out):
            if '/pytornado/' in r.stdout[-3000:]:
                raise Fail('crash', r.stdout[-2000:])
            raise AssertionError('harness: ' + r.stdout[-2000:])
        return json.load(open(out))
    finally:
        proj.rmtree(d)


def cases(ctx):
    out, n = [], 0
    for c in configs(ctx.thorough):
        r = child(c, [])
        require(r['reference'][0] == 'ok', 'undisturbed-run', f"{c}: {r['reference']}")
        faults = [(i + 1, m) for i, o in enumerate(r['ops']) for m in MODES[o.split()[0]]]
        n += len(r['ops'])
        for k in range(0, len(faults), CHUNK):
            out.append(((configs(True).index(c), k), {'config': c, 'ops': len(r['ops']), 'faults': faults[k:k + CHUNK]}))
    return out, n, False


def run_case(case):
    r = child(case['config'], case['faults'])
    ops = r['ops']
    require(r['reference'][0] == 'ok', 'undisturbed-run', str(r['reference']))
    if len(ops) != case['ops']:
        raise AssertionError(f"harness: number of operations varies ({len(ops)}, {case['ops']})")
    done = set()
    for q in r['results']:
        o = ops[q['n'] - 1]
        what = f"{case['config']}: {q['mode']} at operation {q['n']} ({o})"
        require(not q['inputs'], 'input-damaged', f"{what}: {q['inputs']}")
        require(q['end'] != 'died', 'died', f"{what}: {q['detail']}")
        if q['mode'] in ('crash', 'torn'):
            if q['end'] != 'crash':
                raise AssertionError(f'harness: {what} ended {q["end"]} {q["detail"]}')
        elif not o.endswith(' log.txt'):
            require(q['end'] == 'error', 'fault-ignored', f'{what}: the command reports success')
        require(not q['late'], 'success-without-results', f"{what}: the command reports success, files are missing or differ: {q['late']}")
        require(q['again'] == 'ok', 'repetition-fails', f"{what}: repetition without fault ends with {q['again_detail']}")
        require(not q['diff'], 'repetition-differs', f"{what}: repetition without fault leaves other files: {q['diff']}")
        done.add((o.split()[0], q['mode'], q['end']))
    return (case['config'], tuple(map(tuple, case['faults']))), {'faults': len(r['results']), 'runs': 2*len(r['results']) + 1, 'operation_kinds': len(done)}
