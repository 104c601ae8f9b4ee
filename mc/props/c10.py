"""C10: every flight state / every analysis is independent of what ran before it."""
import itertools
import json
import os

import numpy as np

from mc import pt, gen, explore, proj, cli
from mc.pt import require, close, seg, ctrl, wing
from mc.explore import Fail
from mc.props import c28

LEVEL = 'model_checking'
RULE = ('(a) per project: every sequence of flight states up to the length bound over the state alphabet (with repetition), and longer lists with every state at every position, run as one analysis; each position compared (memory, aeroperformance map, result '
        'files of that position) with the analysis of that state alone in a fresh process. (b) every sequence of up to `depth` analyses over the project alphabet (one of them failing) executed in one process; '
        'each step compared with the same analysis in a fresh process. (c) every sequence of up to `edit_depth` analyses of one project whose files are edited in place between them (aircraft, airfoil file, states, deformation, settings), in one process, each compared with a fresh process and a fresh directory; what earlier analyses returned must not change. A history is a path of the tree of sequences; states = history nodes, transitions = analyses executed.')
ASSUMPTIONS = ['comparison relative 1e-10 (printed files: 2e-6 of the printed precision)', 'no clean between analyses; every history starts with a fresh project directory']
STALL = 400

STATES = {
    'base': {},
    'alpha': {'alpha': -7.0, 'rate_Q': 0.4},
    'beta': {'beta': 8.0, 'rate_P': 0.5, 'rate_R': -0.3},
    'fast': {'airspeed': 250.0, 'density': 0.4, 'alpha': 1.0},
    'steep': {'alpha': 40.0, 'beta': -20.0, 'airspeed': 30.0},
}
_base = {}


def W1():
    return wing('w', 2, [seg('s0', *gen.quad('tapered'), af=('NACA2412', 'NACA0010'), nc=2, ns=2), seg('s1', *gen.next_quad(gen.quad('tapered'), 'kink'), nc=1, ns=2)],
                [ctrl('f', 'flap', 's0', 's1', 0.4, 0.6, 0.7, 0.75, defl=7.0, deflm=-3.0, nc=2), ctrl('l', 'slat', 's0', 's0', 0.1, 0.5, 0.2, 0.2, defl=2.0)])


def W2():
    return wing('t', 2, [seg('t0', (5.0, 0.3, 0.8), (5.3, 1.6, 0.9), (5.9, 1.6, 0.9), (5.9, 0.3, 0.8), nc=None, ns=None)])


def FIELD():
    pts = [[0.0, 0.0, 0.0], [0.4, 1.0, 0.0], [0.6, 2.0, 0.1], [0.8, 4.5, 0.2], [1.6, 1.2, 0.0], [1.2, 2.2, 0.0], [1.7, 4.0, 0.2]]
    return [p + [0.02*p[1], -0.01*p[1], 0.03*p[1]**2, 0.0, 0.0, 0.0] for p in pts]


def projects():
    field = {'w': FIELD(), 'w_m': [[p[0], -p[1], p[2]] + [p[3], -p[4], p[5], 0, 0, 0] for p in FIELD()]}
    q = gen.quad('swept')
    P = {
        'full': dict(spec={'wings': [W1(), W2()]}, settings={'vlm_autopanels_c': 2, 'vlm_autopanels_s': 3}),
        'tiny': dict(spec={'wings': [wing('w', 0, [seg('s0', *q, nc=1, ns=1)])]}, settings={}),
        'defo': dict(spec={'wings': [W1()]}, settings={}, deformation=field),
        'noro': dict(spec={'wings': [W1(), W2()], 'refs': dict(pt.REFS, area=2.5, rcenter=[1.0, 0.2, 0.0])},
                     settings={'_do_normal_rotations': False, '_epsilon': 1e-3, 'vlm_autopanels_c': 1, 'vlm_autopanels_s': 2}),
        'fail': dict(spec={'wings': [W1()]}, settings={'state': 'missing.json'}),
    }
    return P


def bounds(ctx):
    return {'sequence_length': 4 if ctx.thorough else 3, 'long_lists': (5, 12, 105) if ctx.thorough else (4, 5, 12), 'states': list(STATES), 'sequence_projects': list(seq_projects(ctx)),
            'edit_depth': 4 if ctx.thorough else 3, 'edits': list(EDITS), 'process_depth': 4 if ctx.thorough else 3, 'projects': list(projects())}


def seq_projects(ctx):
    return ('full', 'defo', 'noro', 'tiny') if ctx.thorough else ('full', 'defo')


def prepare(ctx):
    pt.load()
    import pytornado.stdfun.run     # noqa: import once, before any history
    for n in EDITS:
        _base['edit', n] = proj.unwrap(proj.isolated(execute_edits, [n]))[0]
    names = list(STATES)
    for p in projects():
        if p == 'fail':
            continue
        for s in names:
            _base[p, (s,)] = proj.unwrap(proj.isolated(execute, [(p, [s])]))[0]
    for p, seq in PROC:
        if p != 'fail':
            _base[p, tuple(seq)] = proj.unwrap(proj.isolated(execute, [(p, seq)]))[0]


# contents of one project, edited in place
EDITS = {
    'base': {},
    'aircraft': {'aircraft': 1},
    'foil': {'foil': 0.05},
    'states': {'states': ['base', 'beta']},
    'deformation': {'deformation': 1},
    'settings': {'settings': {'vlm_autopanels_c': 3, 'vlm_autopanels_s': 2}},
}


def put_edit(root, name):
    e = EDITS[name]
    q = gen.quad('swept' if e.get('aircraft') else 'tapered')
    spec = {'wings': [wing('w', 2, [seg('s0', *q, af=('airfoils/w.dat', 'NACA2412'), nc=None, ns=None)],
                           [ctrl('f', 'flap', 's0', 's0', 0.2, 0.9, 0.7, 0.8, defl=-3.0 if e.get('aircraft') else 6.0, deflm=2.0, nc=1)])]}
    if e.get('aircraft'):
        spec['refs'] = dict(pt.REFS, area=2.5, rcenter=[1.0, 0.2, 0.0])
    field = [p[:3] + [v*(-0.5 if e.get('deformation') else 1.0) for v in p[3:]] for p in FIELD()]
    return proj.write_project(root, spec, [STATES[x] for x in e.get('states', ['alpha'])], dict({'vlm_autopanels_c': 2, 'vlm_autopanels_s': 1}, **e.get('settings', {})), deformation={'w': field},
                              files={'airfoils/w.dat': c28.foil(e.get('foil', 0.2))})


def returned(r):
    return {'mem': {k: [float(x) for x in r['state'].results[k]] for k in proj.APM}, **{k: np.array(v) for k, v in r['vlmdata'].panelwise.items()}, **{'coeff_' + k: float(v) for k, v in r['vlmdata'].coeffs.items()},
            'p': np.array(r['lattice'].p), 'n': np.array(r['lattice'].n), 'matrix': np.array(r['vlmdata'].matrix_downwash), 'book': [[str(e.subarea.parent_segment.uid), len(list(e.pan_idx)), bool(e.mirror)] for e in r['lattice'].panel_bookkeeping]}


def execute_edits(names):
    root = proj.fresh_dir()
    obs, kept = [], []
    try:
        for n in names:
            f = put_edit(root, n)
            r = proj.run(f)
            mine = {}
            for k, v in proj.tree(os.path.join(root, '_results')).items():
                if v is not None and (k.endswith('aeroperformance.json') or int(k.split('/')[0].rsplit('_', 1)[1]) < len(EDITS[n].get('states', [0]))):
                    mine[k] = v
            obs.append({'returned': returned(r), 'files': mine})
            kept.append(r)
        for n, r, o in zip(names, kept, obs):
            same_returned(returned(r), o['returned'], f'what the analysis ({n}) of {names} returned, after the later analyses')
    finally:
        proj.rmtree(root)
    return obs


def same_returned(a, b, what):
    require(a['book'] == b['book'], 'returned', f'{what}: bookkeeping')
    for k in a:
        if k == 'mem':
            for x in a[k]:
                close('returned', a[k][x], b[k][x], rtol=1e-10, atol=1e-10, what=f'{what}: {x}')
        elif k != 'book':
            close('returned', a[k], b[k], rtol=1e-10, atol=1e-10, what=f'{what}: {k}')


# analyses used in process histories: project, state sequence
PROC = [('full', ['base', 'beta']), ('tiny', ['steep']), ('defo', ['fast']), ('noro', ['alpha', 'base']), ('fail', [])]


def cases(ctx):
    b = bounds(ctx)
    out, nodes = [], 0
    for p in seq_projects(ctx):
        for n in range(1, b['sequence_length'] + 1):
            for seq in itertools.product(STATES, repeat=n):
                nodes += 1
                out.append(((0, len(out)), {'kind': 'states', 'analyses': [[p, list(seq)]]}))
    # longer lists: every state at every position of lists of the stated lengths
    names = list(STATES)
    for p in seq_projects(ctx):
        for n in b['long_lists']:
            for r in range(len(names)):
                for step in (1, 2):
                    nodes += 1
                    out.append(((0, len(out)), {'kind': 'states', 'analyses': [[p, [names[(r + i*step) % len(names)] for i in range(n)]]]}))
    for n in range(1, b['process_depth'] + 1):
        for h in itertools.product(range(len(PROC)), repeat=n):
            nodes += 1
            if h[-1] == len(PROC) - 1 and n > 1 and n < b['process_depth']:
                continue     # a trailing failing analysis is checked as an inner step of a longer history
            out.append(((1, len(out)), {'kind': 'process', 'analyses': [[PROC[i][0], list(PROC[i][1])] for i in h]}))
    for n in range(1, b['edit_depth'] + 1):
        for h in itertools.product(EDITS, repeat=n):
            nodes += 1
            out.append(((2, len(out)), {'kind': 'edits', 'analyses': list(h)}))
    return out, nodes, False


def execute(analyses):
    """Run the analyses one after another in this process; observations per analysis"""
    obs = []
    for pname, seq in analyses:
        p = projects()[pname]
        root = proj.fresh_dir()
        try:
            f = proj.write_project(root, p['spec'], [STATES[s] for s in seq] or [{}], p['settings'], deformation=p.get('deformation'))
            if pname == 'fail':
                try:
                    proj.run(f)
                    raise Fail('missing-input-accepted', 'an analysis without its state file reported success')
                except (IOError, OSError):
                    obs.append('refused')
                continue
            r = proj.run(f)
            o = {'n': len(seq), 'mem': {k: [float(x) for x in r['state'].results[k]] for k in proj.APM},
                 'gamma': np.array(r['vlmdata'].panelwise['gamma']), 'files': [], 'apm': json.load(open(os.path.join(root, '_results', 'proj_aeroperformance.json')))}
            dirs = sorted(d for d in os.listdir(os.path.join(root, '_results')) if os.path.isdir(os.path.join(root, '_results', d)))
            o['dirs'] = dirs
            for i in range(len(seq)):
                d = os.path.join(root, '_results', 'proj_%03d' % i)
                o['files'].append((json.load(open(d + '/global.json')), np.loadtxt(d + '/panelwise.dat', delimiter=',', ndmin=2), np.loadtxt(d + '/matrix.dat', delimiter=',', ndmin=2)))
            obs.append(o)
        finally:
            proj.rmtree(root)
    return obs


def compare(pname, seq, o):
    if pname == 'fail':
        return require(o == 'refused', 'refusal', 'analysis without state file not refused')
    n = len(seq)
    require(o['dirs'] == ['proj_%03d' % i for i in range(n)], 'result-dirs', f'result directories {o["dirs"]} for {n} states')
    for k in proj.APM:
        require(len(o['mem'][k]) == n, 'result-count', f'{len(o["mem"][k])} values of {k} for {n} states')
        require(len(o['apm'][k]) == n, 'map-count', f'{len(o["apm"][k])} values of {k} in the map for {n} states')
    for i, s in enumerate(seq):
        b = _base[pname, (s,)]
        for grp in (proj.APM[:6], proj.APM[6:9], proj.APM[9:15], proj.APM[15:]):
            ref = np.array([b['mem'][k][0] for k in grp])
            for what, src in (('returned', o['mem']), ('map', o['apm'])):
                close('state-value', [src[k][i] for k in grp], ref, rtol=1e-10, what=f'{what} {grp} of state {i} ({s}) of {seq}')
        for key in proj.state_dict([{}])['aero']:
            v = dict(pt.STATE, **STATES[s])[key]
            close('map-state', o['apm'][key][i], v, rtol=1e-12, what=f'{key} of state {i} in the map')
        fg, fp, fm = o['files'][i]
        bg, bp, bm = b['files'][0]
        for part in ('aero', 'refs', 'global_forces', 'global_coeffs'):
            require(set(fg[part]) == set(bg[part]), 'file-keys', f'{part} of state {i}')
            for k in bg[part]:
                sc = max(float(np.max(np.abs(x))) for x in bg[part].values() if isinstance(x, (int, float))) if part.startswith('global') else 1.0
                if not isinstance(bg[part][k], (int, float, list)):
                    require(fg[part][k] == bg[part][k], 'file-global', f'{part}.{k} of state {i}')
                    continue
                close('file-global', fg[part][k], bg[part][k], rtol=1e-10, atol=1e-10*sc, what=f'global.json {part}.{k} of state {i} ({s}) of {seq}')
        close('file-panelwise', fp, bp, rtol=2e-6, what=f'panelwise file of state {i} ({s}) of {seq}')
        close('file-matrix', fm, bm, rtol=2e-6, what=f'matrix file of state {i} ({s}) of {seq}')
    close('last-circulation', o['gamma'], _base[pname, (seq[-1],)]['gamma'], rtol=1e-10, what='circulation returned')


def run_case(case):
    if case['kind'] == 'edits':
        obs = proj.unwrap(proj.isolated(execute_edits, case['analyses']))
        for i, (n, o) in enumerate(zip(case['analyses'], obs)):
            ref = _base['edit', n]
            what = f'analysis {i} ({n}) of {case["analyses"]}, files edited in place'
            same_returned(o['returned'], ref['returned'], what)
            require(set(o['files']) == set(ref['files']), 'edited-files', f'{what}: {sorted(set(o["files"]) ^ set(ref["files"]))}')
            for k, v in ref['files'].items():
                require(cli.same_text(v, o['files'][k]), 'edited-files', f'{what}: {k} differs from that of a fresh process')
        return ['edits', case['analyses'][-1], len(obs)], {'states': 1, 'transitions': len(obs), 'traces': len(obs)}
    obs = proj.unwrap(proj.isolated(execute, case['analyses']))
    for (p, seq), o in zip(case['analyses'], obs):
        compare(p, seq, o)
    n = sum(len(seq) for _, seq in case['analyses'])
    last = case['analyses'][-1]
    return [last, len(obs)], {'states': 1, 'transitions': n, 'traces': len(obs)}
