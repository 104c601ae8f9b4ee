"""C12: save/load round trips of aircraft and flight-state files."""
import copy
import json
import math
import os

import numpy as np

from mc import pt, gen, explore, proj
from mc.pt import P, require, close
from mc.props import c11

LEVEL = 'exploration'
RULE = ('Aircraft: every aircraft file within `bound` departures of the default (planform, segments, symmetry, airfoil kinds and file locations, panel counts given/open/absent, geometry block, control layout, '
        'mirrored deflection given/null/absent, control panels given/null/absent, references as integers, comment). History per case: load, save, load, save, load; meshes, loads and file contents compared. '
        'States: all accepted forms of the C11 space (list lengths 1..3). Distinct by mesh / state values.')
ASSUMPTIONS = ['files are re-read in the same project directory', 'saving takes place before an analysis (automatic panel counts not yet filled in)']

FOIL = 'foil\n' + '\n'.join(f'{x:.6f} {y:.6f}' for x, y in
                            [(1, 0.0), (0.8, 0.04), (0.5, 0.09), (0.2, 0.08), (0.05, 0.04), (0, 0), (0.05, -0.02), (0.2, -0.03), (0.5, -0.02), (0.8, -0.01), (1, 0.0)]) + '\n'
FILES = {'airfoils/blade.foil': FOIL, 'airfoils/foil.dat': FOIL, 'airfoils/sub/blade.x': FOIL, 'elsewhere/blade.other': FOIL, 'elsewhere/airfoils/x.dat': FOIL}
AFS = ('NACA2412', 'naca0010', 'airfoils/blade.foil', 'airfoils/foil.dat', 'airfoils/sub/blade.x', '{root}/airfoils/blade.foil', '{root}/elsewhere/blade.other', '{root}/elsewhere/airfoils/x.dat')


def bounds(ctx):
    return {'deviations': 3 if ctx.thorough else 2, 'state_list_length': 3}


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    import pytornado.stdfun.run  # noqa
    P.io = io


def driver(ch):
    w = gen.pick_wing(ch, 'w', quads=list(gen.QUADS) + ['plate'], syms=(2, 0, 1, 3), nsegs=(1, 2), ncs=(2, None, 1), nss=(2, None, 3),
                      airfoils=[(a, 'NACA2412') for a in AFS], lays=['flaptaper', 'none', 'both', 'span2taper'])
    spec = {'uid': ch.pick('uid', ('ac', 'my aircraft_m')), 'refs': dict(pt.REFS), 'wings': [w]}
    e = ch.pick('extra', ('none', 'tail', 'yz'))
    if gen.EXTRA[e]:
        spec['wings'].append(gen.extra_wing(e))
    if ch.pick('digits', (0, 1)):
        # values that need all their digits
        for ww in spec['wings']:
            for s in ww['segs']:
                s['v'] = {k: [x*math.pi/3 for x in p] for k, p in s['v'].items()}
        spec['refs'] = {k: [x*math.e for x in v] if isinstance(v, (list, tuple)) else v*math.e for k, v in spec['refs'].items()}
        for c in w['ctrls']:
            for k, f in (('ei', 0.99/0.97), ('eo', 0.97/0.99), ('xi', 0.97/0.99), ('xo', 0.97/0.99), ('hi', 0.97/0.99), ('ho', 0.97/0.99)):
                if k in c:
                    c[k] *= f
    for k, c in enumerate(w['ctrls']):
        c['defl'] = ch.pick(f'defl{k}', (5.0, -3, 0, 100/7))
        c['deflm'] = ch.pick(f'deflm{k}', (-2.5, 'absent', None, 0, -1e-7/3))
        c['nc'] = ch.pick(f'cnc{k}', (2, None, 'absent', 'nopanels'))
    d = proj.aircraft_dict(spec)
    for ce, c in zip(d['wings'][0]['controls'], w['ctrls']):
        if c['deflm'] == 'absent':
            del ce['deflection_mirror']
        if c['nc'] == 'absent':
            ce['panels'] = {}
        elif c['nc'] == 'nopanels':
            del ce['panels']
    for s in d['wings'][0]['segments']:
        pp = ch.pick('segpanels', ('as-is', 'absent', 'empty', 'only_c'))
        if pp == 'absent':
            del s['panels']
        elif pp == 'empty':
            s['panels'] = {}
        elif pp == 'only_c':
            del s['panels']['num_s']
        g = ch.pick('geometry', ('absent', 'empty', 'axis', 'null'))
        if g == 'empty':
            s['geometry'] = {}
        elif g == 'axis':
            s['geometry'] = {'inner_axis': 0.4, 'outer_axis': 0.1}
        elif g == 'null':
            s['geometry'] = {'span': None, 'sweep': None, 'inner_axis': None}
    if not w['ctrls'] and ch.pick('ctrlkey', ('empty', 'absent')) == 'absent':
        del d['wings'][0]['controls']
    r = ch.pick('refs', ('float', 'int', 'comment'))
    if r == 'int':
        d['refs'].update(area=4, chord=1, span=5, gcenter=[0, 0, 0], rcenter=[1, 0, 0])
    elif r == 'comment':
        d['refs']['comment'] = 'test data "quoted" äö'
    return {'kind': 'aircraft', 'ac': d, 'auto': ch.pick('auto', (3, 2)), 'root': ch.pick('root', ('p', 'airfoils', 'my airfoils/blade.x', 'elsewhere'))}


def cases(ctx):
    cs, nodes, _ = explore.enumerate_cases(driver, bound=bounds(ctx)['deviations'])
    out = [((0,) + c, x) for c, x in cs]
    for i, drv in enumerate((c11.driver_a, c11.driver_c)):
        ss, nd, _ = explore.enumerate_cases(lambda ch: drv(ch, 3))
        nodes += nd
        out += [((1 + i,) + c, {'kind': 'state', 'aero': x['aero']}) for c, x in ss if c11.model(x['aero']) is not None]
    return out, nodes, False


def geometry_of(ac, settings):
    """Mesh and loads of a deep copy, so that the object to be saved stays untouched"""
    ac = copy.deepcopy(ac)
    st = pt.one_state(ac, {'alpha': 4.0, 'beta': 2.0, 'rate_P': 0.2})
    lat, vd = pt.solve(ac, st, settings)
    F, C = pt.loads(vd)
    return {'p': np.array(lat.p), 'n': np.array(lat.n), 'F': F, 'C': C,
            'book': sorted(((k, len(v)) for k, v in lat.bookkeeping_by_wing_uid.items()))}


def same(sig, a, b, what):
    require(a['p'].shape == b['p'].shape and a['book'] == b['book'], sig, f'{what}: different mesh size')
    for k, tol in (('p', 1e-12), ('n', 1e-11), ('F', 1e-9), ('C', 1e-9)):
        close(sig, b[k], a[k], rtol=tol, atol=1e-14, what=f'{what}: {k}')


def contains(sig, orig, saved, root, path=''):
    """Every value given in the original appears unchanged in the saved file"""
    if isinstance(orig, dict):
        for k, v in orig.items():
            if v is None or v == {}:
                continue
            if path.endswith('.refs') and k == 'comment':
                require(saved.get(k) == v, sig, f'{path}.{k}')
                continue
            if path.endswith('.airfoils'):
                same_file = lambda s: os.path.realpath(os.path.join(root, s)) if not s.upper().startswith('NACA') else s.upper()
                require(same_file(saved[k]) == same_file(v), sig, f'airfoil {v} saved as {saved[k]}')
                continue
            if path.endswith('.segments') and k == 'geometry':
                v = {a: b for a, b in v.items() if a.endswith('axis')}
            require(isinstance(saved, dict) and k in saved, sig, f'{path}.{k} missing in saved file')
            contains(sig, v, saved[k], root, path + '.' + k)
    elif isinstance(orig, list):
        require(isinstance(saved, list) and len(saved) == len(orig), sig, f'{path}: list length')
        for a, b in zip(orig, saved):
            contains(sig, a, b, root, path)
    else:
        ok = saved == orig if isinstance(orig, str) or not isinstance(saved, (int, float)) else abs(saved - orig) <= 1e-12*abs(orig)
        require(ok, sig, f'{path}: {orig!r} saved as {saved!r}')


def run_aircraft(case):
    top = proj.fresh_dir()
    root = os.path.join(top, case['root'])
    try:
        d = json.loads(json.dumps(case['ac']).replace('{root}', root))
        f = proj.write_project(root, d, [{}], {'vlm_autopanels_c': case['auto'], 'vlm_autopanels_s': case['auto']}, files=FILES)
        settings = P.io.native.settings.load(f)
        path = str(settings.paths('f_aircraft'))
        ac1 = P.io.native.aircraft.load(settings)
        g1 = geometry_of(ac1, settings)
        P.io.native.aircraft.save(ac1, settings)
        t1 = open(path).read()
        contains('saved-values', d, json.loads(t1), root)
        same('save-changes-model', g1, geometry_of(ac1, settings), 'model in memory after saving')
        ac2 = P.io.native.aircraft.load(settings)
        same('reload', g1, geometry_of(ac2, settings), 'reloaded model')
        P.io.native.aircraft.save(ac2, settings)
        t2 = open(path).read()
        contains('resaved-values', d, json.loads(t2), root)
        numeq('resave', json.loads(t1), json.loads(t2))
        ac3 = P.io.native.aircraft.load(settings)
        same('reload2', g1, geometry_of(ac3, settings), 'model after two cycles')
        return [np.round(g1['p'], 9).tolist(), np.round(g1['C'], 8).tolist()]
    finally:
        proj.rmtree(top)


def numeq(sig, a, b, path=''):
    if isinstance(a, dict):
        require(isinstance(b, dict) and set(a) == set(b), sig, f'{path}: keys differ')
        for k in a:
            numeq(sig, a[k], b[k], path + '.' + k)
    elif isinstance(a, list):
        require(isinstance(b, list) and len(a) == len(b), sig, f'{path}: lengths differ')
        for x, y in zip(a, b):
            numeq(sig, x, y, path)
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        require(abs(a - b) <= 1e-9*(1 + abs(a)), sig, f'{path}: {a} != {b}')
    else:
        require(a == b, sig, f'{path}: {a!r} != {b!r}')


def run_state(case):
    root, settings = c11.workspace()
    path = root + '/state/s.json'
    with open(path, 'w') as fp:
        json.dump({'aero': case['aero']}, fp)
    exp = c11.model(case['aero'])
    prev = None
    for cycle in range(3):
        state = P.io.native.state.load(settings)
        got = [dict(s.aero) for s in state.iter_states()]
        require(len(got) == len(exp), 'state-count', f'cycle {cycle}: {len(got)} states')
        for i, (s, _) in enumerate(exp):
            for k, x in s.items():
                close('state-value', got[i][k], x, rtol=2e-6, what=f'cycle {cycle}: {k} of state {i}')
        if prev is not None:
            require(got == prev, 'state-drift', f'cycle {cycle}: {got} != {prev}')
        prev = got
        P.io.native.state.save(state, settings)
        txt = open(path).read()
        saved = json.loads(txt)['aero']
        for k, v in case['aero'].items():
            if v is not None and v != [None]*len(v if isinstance(v, list) else []):
                w = v if isinstance(v, list) else [v]
                sv = saved[k] if isinstance(saved[k], list) else [saved[k]]
                require(sv == w, 'state-saved', f'{k} given as {v} saved as {saved[k]}')
        if cycle:
            require(txt == last, 'state-file', 'file changes between save cycles')
        last = txt
        require([dict(s.aero) for s in state.iter_states()] == got, 'state-live', 'saving changed the state in memory')
    return got


def run_case(case):
    return run_aircraft(case) if case['kind'] == 'aircraft' else run_state(case)
