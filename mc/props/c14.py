"""C14: ill-defined aircraft definitions are refused, well-defined ones are accepted."""
import copy
import json
import os

import numpy as np

from mc import pt, gen, explore, proj
from mc.pt import P, require

LEVEL = 'exploration'
RULE = ('valid definitions: every combination of up to `valid_departures` result-neutral or valid alternatives of a baseline aircraft (2 wings, 4 segments, 3 controls) - all must be accepted up to the finished mesh; '
        'every single defect of the catalogue at every place it can occur, combined with every single valid departure, and (thorough) every pair of defects at unrelated places - all must be refused with an error before the mesh exists. '
        'Loaded from aircraft files through the real loader. Distinct by set of edits.')
ASSUMPTIONS = ['refused = an exception from loading or from mesh generation', 'whole numbers where fractions are required, and relative chord positions of exactly 0 or 1, are not in either catalogue; nor are hinge positions left out (the code documents a fallback)']


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    P.io = io


def bounds(ctx):
    return {'valid_departures': 3 if ctx.thorough else 2, 'defects_per_definition': 2 if ctx.thorough else 1, 'valid_departures_per_defect': 2 if ctx.thorough else 1,
            'valid_departures_per_pair': 1 if ctx.thorough else 0, 'defects': len(defects())}


def baseline():
    from mc.pt import seg, ctrl, wing
    q0 = gen.quad('tapered')
    q1 = gen.next_quad(q0, 'kink')
    q2 = gen.next_quad(q1, 'kink')
    w = wing('w', 2, [seg('s0', *q0, nc=2, ns=2), seg('s1', *q1, af=('NACA2412', 'NACA0012'), nc=1, ns=1), seg('s2', *q2, nc=1, ns=2)],
             [ctrl('f', 'flap', 's0', 's1', 0.4, 0.6, 0.7, 0.75, defl=7.0, deflm=-3.0), ctrl('l', 'slat', 's0', 's0', 0.1, 0.5, 0.2, 0.2, defl=2.0, deflm=2.0),
              ctrl('g', 'flap', 's2', 's2', 0.2, 0.7, 0.7, 0.8, defl=1.0, deflm=0.0, nc=2)])
    t = wing('t', 0, [seg('s0', (5.0, 0.3, 0.8), (5.3, 1.6, 0.9), (5.9, 1.6, 0.9), (5.9, 0.3, 0.8), nc=1, ns=1)])
    d = proj.aircraft_dict({'wings': [w, t]})
    return d


DEL = '__delete__'


def defects():
    """[(name, [(path, value), ...])]; path: tuple into the aircraft dictionary"""
    out = []
    base = baseline()

    def add(path, *values):
        for v in values:
            out.append([[list(path), v]])
    for k in ('area', 'chord', 'span'):
        add(('refs', k), DEL, None, 0, 0.0, -1.0, 'big', [1.0])
    for k in ('gcenter', 'rcenter'):
        add(('refs', k), DEL, None, [0.0, 0.0], [0.0, 0.0, 0.0, 0.0], ['a', 0.0, 0.0], 3.0, [0.0, None, 0.0], [])
    add(('uid',), 5, None, DEL)
    add(('refs',), DEL, {})
    add(('wings',), DEL)
    for i, w in enumerate(base['wings']):
        wp = ('wings', i)
        add(wp + ('uid',), '', 5, DEL, None)
        add(wp + ('symmetry',), 4, -1, '2', None, 2.5, DEL)
        add(wp + ('segments',), DEL)
        for j, s in enumerate(w['segments']):
            sp = wp + ('segments', j)
            add(sp + ('uid',), '', 5, DEL, None)
            for v in 'abcd':
                add(sp + ('vertices', v), DEL, None, [0.0, 1.0], [0.0, 1.0, 0.0, 0.0], ['x', 0.0, 0.0], 1.0, 'abc', [0.0, None, 1.0], [])
            add(sp + ('vertices',), {}, DEL)
            for e in ('inner', 'outer'):
                add(sp + ('airfoils', e), DEL, '', 'foo', 'airfoils/missing.dat', 'NACA', 'NACA12', 'NACAabcd', None, 12)
                add(sp + ('geometry', f'{e}_axis'), -0.1, 1.5, 'mid')
            for k in ('num_c', 'num_s'):
                add(sp + ('panels', k), 0, -1, 2.5, '3', [1])
        for j, c in enumerate(w['controls']):
            cp = wp + ('controls', j)
            add(cp + ('uid',), '', 5, DEL, None)
            add(cp + ('device_type',), DEL, None, 'rudder', 'FLAP', 5, '')
            add(cp + ('deflection',), DEL, None, 90.5, -91.0, '5', [1.0])
            add(cp + ('deflection_mirror',), 90.5, -91.0, '5')
            for e in ('inner', 'outer'):
                add(cp + ('segment_uid', e), DEL, None, 'nope', 5, '')
                add(cp + ('rel_vertices', f'eta_{e}'), DEL, None, -0.1, 1.1, 'a')
                add(cp + ('rel_vertices', f'xsi_{e}'), DEL, None, -0.1, 1.1, 'a')
                add(cp + ('rel_hinge_vertices', f'xsi_{e}'), -0.1, 1.1, 'a')
            add(cp + ('panels', 'num_c'), 0, -2, 1.5, '2')
            # inverted or empty span of the control
            if c['segment_uid']['inner'] == c['segment_uid']['outer']:
                out.append([[list(cp + ('rel_vertices', 'eta_inner')), c['rel_vertices']['eta_outer']], [list(cp + ('rel_vertices', 'eta_outer')), c['rel_vertices']['eta_inner']]])
                add(cp + ('rel_vertices', 'eta_inner'), c['rel_vertices']['eta_outer'])
            else:
                out.append([[list(cp + ('segment_uid', 'inner')), c['segment_uid']['outer']], [list(cp + ('segment_uid', 'outer')), c['segment_uid']['inner']]])
    # duplicates
    add(('wings', 1, 'uid'), 'w')
    add(('wings', 0, 'segments', 1, 'uid'), 's0')
    add(('wings', 0, 'segments', 2, 'uid'), 's0')
    add(('wings', 0, 'segments', 2, 'uid'), 's1')
    add(('wings', 0, 'controls', 1, 'uid'), 'f')
    add(('wings', 0, 'controls', 2, 'uid'), 'l')
    for i in (0, 1):
        for j in (0, 1):
            w = copy.deepcopy(base['wings'][i])
            w['uid'] = base['wings'][j]['uid']
            out.append([[['wings', '+'], w]])
    for j in (0, 1, 2):
        s = copy.deepcopy(base['wings'][0]['segments'][2])
        s['uid'] = f's{j}'
        out.append([[['wings', 0, 'segments', '+'], s]])
        c = copy.deepcopy(base['wings'][0]['controls'][2])
        c.update(uid=base['wings'][0]['controls'][j]['uid'], rel_vertices={'eta_inner': 0.7, 'eta_outer': 0.9, 'xsi_inner': 0.6, 'xsi_outer': 0.6})
        out.append([[['wings', 0, 'controls', '+'], c]])
    # overlapping controls: the second one on the first one's strip
    def over(**kw):
        c = copy.deepcopy(base['wings'][0]['controls'][0])
        c.update({'uid': 'o', 'device_type': kw['kind'], 'segment_uid': {'inner': kw['si'], 'outer': kw['so']},
                  'rel_vertices': {'eta_inner': kw['ei'], 'eta_outer': kw['eo'], 'xsi_inner': kw['xi'], 'xsi_outer': kw['xo']}, 'rel_hinge_vertices': {'xsi_inner': kw['xi'], 'xsi_outer': kw['xo']}})
        out.append([[['wings', 0, 'controls', '+'], c]])
    over(kind='flap', si='s0', so='s0', ei=0.6, eo=0.8, xi=0.8, xo=0.8)
    over(kind='flap', si='s0', so='s0', ei=0.2, eo=0.5, xi=0.8, xo=0.8)
    over(kind='flap', si='s1', so='s1', ei=0.3, eo=0.9, xi=0.8, xo=0.8)
    over(kind='flap', si='s0', so='s2', ei=0.1, eo=0.9, xi=0.8, xo=0.8)
    over(kind='flap', si='s1', so='s2', ei=0.7, eo=0.3, xi=0.8, xo=0.8)
    over(kind='slat', si='s0', so='s0', ei=0.3, eo=0.9, xi=0.3, xo=0.3)
    over(kind='slat', si='s2', so='s2', ei=0.1, eo=0.3, xi=0.75, xo=0.85)
    over(kind='slat', si='s1', so='s2', ei=0.1, eo=0.3, xi=0.8, xo=0.2)
    over(kind='flap', si='s0', so='s0', ei=0.2, eo=0.3, xi=0.15, xo=0.5)
    return out


def valid_edits():
    """choice name -> alternatives, each a list of edits; all valid, together as well"""
    W = ('wings', 0)
    out = [
        ('refs', [[[('refs', 'area'), 7]], [[('refs', 'gcenter'), [0, 1, 2]]], [[('refs', 'comment'), 'text']], [[('refs', 'chord'), 1e-3]]]),
        ('uid', [[[('uid',), 'Flugzeug ä']], [[('uid',), 'w']]]),
        ('sym', [[[W + ('symmetry',), 0]], [[W + ('symmetry',), 1]], [[W + ('symmetry',), 3]], [[('wings', 1, 'symmetry'), 2]]]),
        ('winguid', [[[('wings', 1, 'uid'), 's0']], [[('wings', 1, 'uid'), '1']]]),
        ('segpanels', [[[W + ('segments', 0, 'panels'), DEL]], [[W + ('segments', 0, 'panels', 'num_c'), None]], [[W + ('segments', 1, 'panels', 'num_s'), None]], [[W + ('segments', 2, 'panels'), {}]],
                       [[W + ('segments', 2, 'panels', 'num_s'), 5]]]),
        ('airfoil', [[[W + ('segments', 0, 'airfoils', 'inner'), 'naca0012']], [[W + ('segments', 2, 'airfoils', 'outer'), 'NACA4410']], [[W + ('segments', 1, 'airfoils', 'inner'), 'airfoils/good.dat']]]),
        ('vert', [[[('wings', 1, 'segments', 0, 'vertices', 'a'), [5, 0.3, 0.8]]]]),
        ('geom', [[[W + ('segments', 0, 'geometry'), {}]], [[W + ('segments', 0, 'geometry'), {'inner_axis': 0.4, 'outer_axis': 1.0}]], [[W + ('segments', 1, 'geometry'), {'span': None, 'inner_axis': 0.0}]]]),
        ('kind', [[[W + ('controls', 2, 'device_type'), 'slat']]]),
        ('defl', [[[W + ('controls', 0, 'deflection'), 90]], [[W + ('controls', 0, 'deflection'), -90.0]], [[W + ('controls', 1, 'deflection'), 0]]]),
        ('deflm', [[[W + ('controls', 0, 'deflection_mirror'), DEL]], [[W + ('controls', 0, 'deflection_mirror'), None]], [[W + ('controls', 1, 'deflection_mirror'), 90]]]),
        ('cpanels', [[[W + ('controls', 0, 'panels'), DEL]], [[W + ('controls', 1, 'panels', 'num_c'), None]], [[W + ('controls', 2, 'panels', 'num_c'), 4]]]),
        ('eta', [[[W + ('controls', 0, 'rel_vertices', 'eta_inner'), 0.0]], [[W + ('controls', 0, 'rel_vertices', 'eta_outer'), 1.0]], [[W + ('controls', 2, 'rel_vertices', 'eta_outer'), 1.0]],
                 [[W + ('controls', 1, 'rel_vertices', 'eta_inner'), 0.0]]]),
        ('hinge', [[[W + ('controls', 0, 'rel_hinge_vertices', 'xsi_inner'), 1.0]], [[W + ('controls', 1, 'rel_hinge_vertices', 'xsi_outer'), 0.0]], [[W + ('controls', 2, 'rel_hinge_vertices', 'xsi_inner'), 0.3]]]),
        ('adjacent', [[[W + ('controls', '+'), dict(copy.deepcopy(baseline()['wings'][0]['controls'][2]), uid='h', rel_vertices={'eta_inner': 0.7, 'eta_outer': 0.9, 'xsi_inner': 0.6, 'xsi_outer': 0.6})]],
                      [[W + ('controls', '+'), dict(copy.deepcopy(baseline()['wings'][0]['controls'][1]), uid='h', rel_vertices={'eta_inner': 0.5, 'eta_outer': 0.9, 'xsi_inner': 0.1, 'xsi_outer': 0.3})]]]),
        ('third', [[[('wings', '+'), dict(copy.deepcopy(baseline()['wings'][1]), uid='third')]], [[('wings', 1, 'segments', 0, 'uid'), 's9']],
                   [[('wings', 1, 'controls'), [dict(copy.deepcopy(baseline()['wings'][0]['controls'][0]), segment_uid={'inner': 's0', 'outer': 's0'})]]]]),
        ('nocontrols', [[[('wings', 1, 'controls'), DEL]]]),
    ]
    return [(n, [[[list(p), v] for p, v in alt] for alt in alts]) for n, alts in out]


def apply(edits):
    d = baseline()
    for path, v in edits:
        o = d
        for k in path[:-1]:
            if isinstance(o, dict) and k not in o:
                o[k] = {}
            o = o[k]
        if v == DEL:
            o.pop(path[-1], None)
        elif path[-1] == '+':
            o.append(copy.deepcopy(v))
        else:
            o[path[-1]] = copy.deepcopy(v)
    return d


def related(e1, e2):
    for p, _ in e1:
        for q, _ in e2:
            n = min(len(p), len(q))
            if p[:n] == q[:n]:
                return True
            # both touch uids / segment references / the spanwise extent of controls
    return False


def cases(ctx):
    b = bounds(ctx)
    V, D = valid_edits(), defects()

    def driver(ch):
        ed = []
        for n, alts in V:
            a = ch.pick(n, [[]] + alts)
            if a and any(related([x], ed) for x in a):
                raise explore.Prune()
            ed = ed + a
        if any(p[-1] == '+' for p, _ in ed) and any('eta_outer' in p for p, _ in ed):
            raise explore.Prune()       # the additional control would overlap
        return {'kind': 'valid', 'edits': ed}
    cs, nodes, capped = explore.enumerate_cases(driver, bound=b['valid_departures'])
    out = [((0,) + c, x) for c, x in cs]
    vs = [x['edits'] for c, x in explore.enumerate_cases(driver, bound=b['valid_departures_per_defect'])[0]]
    v0 = [x['edits'] for c, x in explore.enumerate_cases(driver, bound=b['valid_departures_per_pair'])[0]]

    group = []

    def emit(edits):
        group.append(edits)
        if len(group) == 64:
            flush()

    def flush():
        if group:
            out.append(((1, len(out)), {'kind': 'invalid', 'list': list(group)}))
            group.clear()
    n = 0
    for i, d in enumerate(D):
        for v in vs:
            if not masks(v, d):
                n += 1
                emit(v + d)
    for i, d in enumerate(D if ctx.thorough else []):
        for e in D[i + 1:]:
            if related(d, e):
                continue
            for v in v0:
                if not masks(v, d) and not masks(v, e):
                    n += 1
                    emit(v + d + e)
    flush()
    return out, nodes + n, capped


def masks(v, d):
    """valid departure that could make the defect harmless"""
    if related(v, d):
        return True
    vp = [p for p, _ in v]
    dp = [p for p, _ in d]
    # removing a symmetry makes the mirrored deflection meaningless; uids used for duplicates; places of overlapping controls
    if any(p[-1] == 'symmetry' for p in vp) and any(p[-1] == 'deflection_mirror' for p in dp):
        return True
    if any(p[-1] == 'uid' for p in vp) and any(p[-1] in ('uid', '+') for p in dp):
        return True
    if any(p[-1] == 'device_type' or 'rel_vertices' in p or p[-1] == '+' for p in vp) and any('rel_vertices' in p or 'segment_uid' in p or p[-1] == '+' for p in dp):
        return True
    return False


_ws = {}


def attempt(d):
    if os.getpid() not in _ws:
        root = proj.fresh_dir()
        f = proj.write_project(root, {'wings': []}, [{}], {'vlm_autopanels_c': 2, 'vlm_autopanels_s': 2}, files={'airfoils/good.dat': airfoil()})
        _ws[os.getpid()] = (root, P.io.native.settings.load(f))
    root, settings = _ws[os.getpid()]
    proj._put(root + '/aircraft/ac.json', d)
    try:
        ac = P.io.native.aircraft.load(settings)
        P.vlm.set_autopanels(ac, settings)
        lat = P.vlm.gen_lattice(ac, pt.one_state(ac, {}), settings)
        return lat
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return e


def airfoil():
    x = np.concatenate([np.linspace(1, 0, 21), np.linspace(0, 1, 21)[1:]])
    z = 0.1*np.sqrt(x)*(1 - x)*np.concatenate([np.ones(21), -np.ones(20)])
    return 'good\n' + '\n'.join(f'{a:.6f} {b:.6f}' for a, b in zip(x, z)) + '\n'


def run_case(case):
    if case['kind'] == 'valid':
        r = attempt(apply(case['edits']))
        require(not isinstance(r, Exception), 'valid-refused', f'valid definition refused: {r!r}\n edits: {case["edits"]}')
        require(np.all(np.isfinite(np.array(r.p))) and len(r.p) > 0, 'valid-mesh', 'mesh of a valid definition')
        return np.round(np.array(r.p), 6).tolist()
    kinds = set()
    for ed in case['list']:
        r = attempt(apply(ed))
        require(isinstance(r, Exception), 'invalid-accepted', f'accepted although ill-defined: {ed}')
        kinds.add(type(r).__name__)
    return [sorted(kinds), case['list'][0]], {'invalid_definitions': len(case['list'])}
