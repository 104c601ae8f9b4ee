"""C16: result files are written exactly when requested and hold the computed results."""
import itertools
import json
import os
import re

import numpy as np

from mc import pt, gen, explore, proj
from mc.pt import P, require, close
from mc.props import c15

LEVEL = 'exploration'
RULE = ('every subset of the save options (each switched on, off or left out) x configurations x state lists x project names, and every subset of saved plots, shown plots and plotted quantities, run as real analyses in a '
        'fresh project or over the files of an earlier one; the set of files and every number in them compared with the results of a separate run of each flight state without any saving. Distinct by configuration, options and state list.')
ASSUMPTIONS = ['names of settings files without curly brackets', 'printed precision: 7 significant digits in tables, full precision in json files', 'plots are drawn with a file backend at reduced resolution', 'computed results themselves: C07, C08, C10']
STALL = 300

SAVE = ('global', 'panelwise', 'aeroperformance', 'matrix_system')
PLOTS = ('geometry', 'lattice', 'results', 'matrix_downwash')
KEYS = ('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')
UNIT = dict(zip(KEYS, ['m^2/s'] + ['m/s']*4 + ['N']*4 + ['1']))
STATES = [{}, {'alpha': -4.0, 'beta': 3.0, 'rate_P': 0.2}, {'airspeed': 60.0, 'density': 0.4, 'rate_Q': -0.1, 'rate_R': 0.3}]
ALT = {'aero': {'airspeed': [None, None], 'density': [None, None], 'mach': [0.3, 0.5], 'altitude': [1000.0, 9000.0], 'alpha': [2.0, 3.0], 'beta': [0.0, -1.0],
                'rate_P': [0.0, 0.1], 'rate_Q': [0.0, 0.0], 'rate_R': [0.0, 0.0]}}
REFSETS = [None, {'gcenter': [1.0, 0.5, -0.2], 'rcenter': [-0.5, 0.25, 0.75], 'area': 3.0, 'chord': 0.75, 'span': 7.0},
           {'gcenter': [0.0, 0.0, 0.0], 'rcenter': [0.0, 0.0, 0.0], 'area': 1.0, 'chord': 1.0, 'span': 1.0}]


def spec(name):
    if name == 'one':
        return {'wings': [pt.wing('w', 2, [pt.seg('s', *gen.quad('tapered'), nc=1, ns=1)])]}
    if name == 'single':
        return {'wings': [pt.wing('w', 0, [pt.seg('s', *gen.quad('twisted'), nc=1, ns=1)])], 'refs': REFSETS[2]}
    if name == 'ctrl':
        return {'wings': [pt.wing('w', 2, [pt.seg('s', *gen.quad('swept'), nc=2, ns=2, af=('NACA2412', 'NACA0012'))],
                                  [pt.ctrl('f', 'flap', 's', 's', 0.3, 0.7, 0.7, 0.7, defl=5.0, deflm=-2.0)])], 'refs': REFSETS[1]}
    return {'wings': [pt.wing('w', 2, [pt.seg('s', *gen.quad('dihedral'), nc=2, ns=2)]), pt.wing('v', 0, [pt.seg('s', *gen.quad('fin'), nc=1, ns=2)])], 'refs': REFSETS[1]}


DEF = {'w': [[x, y, z, 0.01*y, 0.02*y, 0.05*y*y, 0, 0, 0] for x, y, z in [(0.5, 0, 0), (0.6, 1, 0.1), (0.7, 2, 0.2), (0.8, 2.5, 0.3)]]}


def prepare(ctx):
    import matplotlib
    matplotlib.use('Agg')
    c15.prepare(ctx)
    import matplotlib.figure as mf
    orig = mf.Figure.savefig

    def savefig(self, fname, *a, **k):
        k['dpi'] = 12
        return orig(self, fname, *a, **k)
    mf.Figure.savefig = savefig
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: None


def bounds(ctx):
    return {'save_option_values': 'on/off/left out' if ctx.thorough else 'all on/off subsets, left out singly', 'states': 'all lists up to length %d' % (3 if ctx.thorough else 2), 'configurations': 4,
            'plots': 'all subsets'}


def cases(ctx):
    out, n = [], 0

    def add(size, **c):
        nonlocal n
        n += 1
        out.append(((size, n), c))
    specs = ['one', 'single', 'ctrl', 'two']
    saves = [dict(zip(SAVE, v)) for v in itertools.product((True, False), repeat=4)]
    partial = [{k: v for k, v in zip(SAVE, vs) if v is not None} for vs in itertools.product((True, False, None), repeat=4)]
    if not ctx.thorough:
        partial = [p for p in partial if len(p) <= 1 or len(p) == 3 and all(p.values())]
    seqs = [s for ln in range(1, (3 if ctx.thorough else 2) + 1) for s in itertools.product(range(3), repeat=ln)]
    for sp in specs:
        for sq in seqs if ctx.thorough else [(0,), (1, 2), (2, 0, 1)]:
            for sv in saves:
                add(0, spec=sp, seq=list(sq), save=sv, name='proj')
        for sv in partial:
            add(1, spec=sp, seq=[0, 1], save=sv, name='proj')
        add(1, spec=sp, seq=[0, 1], save=None, name='proj')
        add(2, spec=sp, seq='alt', save=dict.fromkeys(SAVE, True), name='proj')
        for sq in seqs:
            add(3, spec=sp, seq=list(sq), save=dict.fromkeys(SAVE, True), name='proj')
    for nm in ('a', 'my_project', 'x-1.2', 'global', 'p_000', 'ä b'):
        add(4, spec='one', seq=[0, 1], save=dict.fromkeys(SAVE, True), name=nm)
    add(5, spec='single', seq=[i % 3 for i in range(13)], save=dict.fromkeys(SAVE, True), name='proj')
    if ctx.thorough:
        add(5, spec='single', seq=[i % 3 for i in range(1002)], save=dict.fromkeys(SAVE, True), name='proj')
    # on top of the files of an earlier analysis in the same directory
    for sv in saves:
        for sp in specs:
            add(5, spec=sp, seq=[0], save=sv, name='proj', prev='garbage')
            for sp0 in ('two', 'ctrl') if ctx.thorough else ('two',):
                add(5, spec=sp, seq=[1], save=sv, name='proj', prev={'spec': sp0, 'seq': [0, 2], 'save': dict.fromkeys(SAVE, True)})
    # plots
    allon = dict.fromkeys(SAVE, True)
    for sp in (['ctrl', 'two', 'one'] if ctx.thorough else ['ctrl']):
        for r in range(1, 5):
            for ps in itertools.combinations(PLOTS, r):
                add(6, spec=sp, seq=[1, 0], save=allon, name='proj', plot={p: {'save': True} for p in ps})
    for p in PLOTS:
        for sp in ('two', 'one', 'ctrl'):
            add(7, spec=sp, seq=[1], save=allon, name='proj', plot={p: {'show': True}})
            add(7, spec=sp, seq=[1], save=dict.fromkeys(SAVE, False), name='proj', plot={p: {'show': True, 'save': True}})
    for k in KEYS:
        add(8, spec='two', seq=[1], save=allon, name='proj', plot={'results': {'save': True, 'opt': [k]}})
    add(8, spec='two', seq=[1, 2], save=allon, name='proj', plot={'results': {'save': True, 'opt': ['gamma', 'fz']}})
    for p in PLOTS:
        add(9, spec='ctrl', seq=[1], save=allon, name='proj', plot={p: {'save': True, **({'opt': ['deformation']} if p == 'lattice' else {})}}, deform=True)
    return out, n + 1, False


_ref = {}


def reference(sp, deform, i):
    """results of a run of one state without saving anything"""
    k = (sp, deform, i)
    if k not in _ref:
        d = proj.fresh_dir('ref')
        try:
            f = proj.write_project(d, spec(sp), [STATES[i]] if not isinstance(i, tuple) else {'aero': {k: [v[i[1]]] for k, v in ALT['aero'].items()}},
                                   {'save_results': dict.fromkeys(SAVE, False), **({'_deformation_check': False} if deform else {})}, deformation=DEF if deform else None)
            r = proj.run(f)
            v, s = r['vlmdata'], r['state']
            _ref[k] = {'forces': dict(v.forces), 'coeffs': dict(v.coeffs), 'panelwise': {a: np.array(b) for a, b in v.panelwise.items()}, 'A': np.array(v.matrix_downwash),
                       'b': np.array(v.array_rhs), 'aero': {a: (None if b is None else float(b[0])) for a, b in s.aero.items()}}
            if not isinstance(i, tuple):
                for a, b in dict(pt.STATE, **STATES[i]).items():
                    assert _ref[k]['aero'][a] == b
        finally:
            proj.rmtree(d)
    return _ref[k]


def num(x, y, sig, what, rtol=1e-9, atol=0.0):
    x, y = np.asarray(x, float), np.asarray(y, float)
    require(x.shape == y.shape, sig, f'{what}: shape {x.shape} instead of {y.shape}')
    if not x.size:
        return
    d = np.abs(x - y) - rtol*np.abs(y) - atol
    require(np.all(d <= 0), sig, lambda: f'{what}: {x.ravel()[np.argmax(d)]!r} instead of {y.ravel()[np.argmax(d)]!r}')


def table(b, what):
    lines = b.decode().splitlines()
    head = [ln[1:] for ln in lines if ln.startswith('#')]
    rows = [[float(v) for v in ln.split(',')] for ln in lines if ln.strip() and not ln.startswith('#')]
    require(len({len(r) for r in rows}) <= 1, 'table', f'{what}: rows of different length')
    return head, np.array(rows)


def run_case(case):
    return proj.unwrap(proj.isolated(_run, case))


def _run(case):
    sp, name, dfm = case['spec'], case['name'], bool(case.get('deform'))
    seq = [('alt', 0), ('alt', 1)] if case['seq'] == 'alt' else case['seq']
    refs = [reference(sp, dfm, i) for i in seq]
    d = proj.fresh_dir('c16')
    try:
        s = {} if case['save'] is None else {'save_results': case['save']}
        if case.get('plot'):
            s['plot'] = case['plot']
        if dfm:
            s['_deformation_check'] = False
        if isinstance(case.get('prev'), dict):
            v = case['prev']
            proj.run(proj.write_project(d, spec(v['spec']), [STATES[i] for i in v['seq']], {'save_results': v['save']}, name=name))
        f = proj.write_project(d, spec(sp), ALT if case['seq'] == 'alt' else [STATES[i] for i in seq], s, name=name, deformation=DEF if dfm else None)
        if case['save'] is None:
            c = json.load(open(f))
            del c['save_results']
            proj._put(f, c)
        if case.get('prev') == 'garbage':
            for i in range(len(seq)):
                for x in ('global.json', 'panelwise.dat', 'matrix.dat'):
                    proj._put(os.path.join(d, f'_results/{name}_{i:03d}/{x}'), '# [1.0, 2.0] {"a": 3}\n'*4000)
            proj._put(os.path.join(d, f'_results/{name}_aeroperformance.json'), '[1.0, 2.0]\n'*4000)
        before = proj.tree(d)
        res = proj.run(f)
        after = proj.tree(d)
    finally:
        proj.rmtree(d)
    on = {k: bool((case['save'] or {}).get(k)) for k in SAVE}
    # files
    want = set()
    for i in range(len(seq)):
        b = f'_results/{name}_{i:03d}/'
        want |= {b + x for x, k in (('global.json', 'global'), ('panelwise.dat', 'panelwise'), ('matrix.dat', 'matrix_system')) if on[k]}
    if on['aeroperformance']:
        want.add(f'_results/{name}_aeroperformance.json')
    old = want if case.get('prev') else set()
    new = {k for k, v in after.items() if v is not None and (k not in before or k in old or before[k] != v) and not k.endswith('log.txt')}
    plots = {k for k in new if k.startswith('_plots/')}
    require(new - plots == want, 'files', f'missing {sorted(want - new)}, not asked for {sorted(new - plots - want)}')
    for k, v in before.items():
        require(k in old or k.endswith('log.txt') or after.get(k, 0) == v, 'input-changed', k)
    # plots
    pk = []
    for i in range(len(seq)):
        for p, o in (case.get('plot') or {}).items():
            if o.get('save'):
                nm = {'matrix_downwash': ['downwash'], 'results': [f'results_{q}{dim}' for q in (o.get('opt') or ['cp']) for dim in ('2D', '3D')]}.get(p, [p + '2D', p + '3D'])
                pk += [f'_plots/{name}_{i:03d}/{x}_TS.png' for x in nm]
    got = sorted(c15.TS.sub('_TS', k) for k in plots)
    require(got == sorted(pk), 'plot-files', lambda: f'{got} instead of {sorted(pk)}')
    # returned results
    L = res['vlmdata']
    R = refs[-1]
    sc = max(abs(v) for v in R['forces'].values()) + 1e-9
    mats = (('A', L.matrix_downwash), ('b', L.array_rhs))
    for k, v in mats:
        num(v, R[k], 'returned', f'returned {k}', 1e-9, 1e-9)
    for k in R['forces']:
        num(L.forces[k], R['forces'][k], 'returned', f'returned force {k}', 1e-9, 1e-9*sc)
        num(L.coeffs[k], R['coeffs'][k], 'returned', f'returned coefficient {k}', 1e-9, 1e-9)
    rs = (spec(sp).get('refs') or pt.REFS)
    for i, R in enumerate(refs):
        sc = max(abs(v) for v in R['forces'].values()) + 1e-9
        for k in proj.APM:
            ref = R['forces' if k[0] in 'FM' else 'coeffs'][proj.LOADKEY[k]]
            num(res['state'].results[k][i], ref, 'returned', f'returned {k} of state {i}', 1e-9, 1e-9*(sc if k[0] in 'FM' else 1))
        b = f'_results/{name}_{i:03d}/'
        if on['global']:
            g = json.loads(after[b + 'global.json'])
            require(set(g) == {'aero', 'refs', 'global_forces', 'global_coeffs'}, 'global-keys', f'{sorted(g)}')
            for k in ('airspeed', 'density', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R'):
                require(k in g['aero'] and g['aero'][k] is not None, 'global-aero', f'{b}: no {k}')
                num(g['aero'][k], R['aero'][k], 'global-aero', f'{b} {k}', 1e-12)
            for k, v in rs.items():
                require(k in g['refs'], 'global-refs', f'{b}: no {k}')
                num(g['refs'][k], v, 'global-refs', f'{b} {k}', 1e-12)
            for grp, key, s_ in (('global_forces', 'forces', sc), ('global_coeffs', 'coeffs', 1.0)):
                require(set(g[grp]) == set(R[key]), 'global-loads', f'{b}: {sorted(g[grp])}')
                for k in R[key]:
                    num(g[grp][k], R[key][k], 'global-loads', f'{b} {grp} {k}', 1e-9, 1e-9*s_)
        if on['panelwise']:
            head, rows = table(after[b + 'panelwise.dat'], b)
            lab = re.findall(r'([A-Za-z_]+)\s*\[([^]]*)\]', ' '.join(head))
            require(sorted(x for x, _ in lab) == sorted(KEYS), 'panelwise-labels', f'{lab}')
            n = len(R['b'])
            require(rows.shape == (n, len(KEYS)), 'panelwise-shape', f'{rows.shape}, {n} panels')
            for j, (k, u) in enumerate(lab):
                require(u.strip() == UNIT[k], 'panelwise-unit', f'{k} [{u}]')
                ref = R['panelwise'][k]
                num(rows[:, j], ref, 'panelwise', f'{b} {k}', 6e-7, 1e-9*np.abs(ref).max())
        if on['matrix_system']:
            head, rows = table(after[b + 'matrix.dat'], b)
            n = len(R['b'])
            require(rows.shape == (n, n + 1), 'matrix-shape', f'{rows.shape}, {n} panels')
            num(rows[:, :n], R['A'], 'matrix', f'{b} matrix', 6e-7, 1e-9*np.abs(R['A']).max())
            num(rows[:, n], R['b'], 'matrix', f'{b} right-hand side', 6e-7, 1e-9*np.abs(R['b']).max())
            g = R['panelwise']['gamma']
            num(rows[:, :n] @ g, rows[:, n], 'matrix-system', f'{b} system of equations', 0, 1e-5*(np.abs(rows[:, n]).max() + (np.abs(rows[:, :n]) @ np.abs(g)).max()))
            require(str(n) in ' '.join(head), 'matrix-header', f'{head}')
    if on['aeroperformance']:
        a = json.loads(after[f'_results/{name}_aeroperformance.json'])
        for k in set(refs[0]['aero']) | set(proj.APM):
            require(k in a, 'apm-keys', f'no {k}')
            if k in proj.APM:
                ref = [R['forces' if k[0] in 'FM' else 'coeffs'][proj.LOADKEY[k]] for R in refs]
                num(a[k], ref, 'apm', f'aeroperformance {k}', 1e-9, 1e-9*(max(map(abs, ref)) if k[0] in 'FM' else 1) + 1e-9*(sc if k[0] in 'FM' else 0))
            elif refs[0]['aero'][k] is None:
                require(not a[k], 'apm', f'{k}: {a[k]}')
            else:
                num(a[k], [R['aero'][k] for R in refs], 'apm', f'aeroperformance {k}', 1e-12)
    return [sp, len(seq), sorted(k for k in on if on[k]), sorted((case.get('plot') or {}).items(), key=str), name, str(case.get('prev'))[:20]], {'files_checked': len(want) + len(pk)}
