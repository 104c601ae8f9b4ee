"""C19: segment definitions by corner points and dimensions."""
import itertools
import json
import math
import os

import numpy as np

from mc import pt, explore, proj
from mc.pt import P, require, close

LEVEL = 'exploration'
RULE = ('(a) every shape within `bound` departures of the default over a grid of chords, incidences, yaw angles, axis positions, span, sweep, dihedral (zeros included) and reference corner, each defined in all seven '
        'documented ways and loaded from an aircraft file; corner points compared with an independent construction, derived dimensions fed back, meshes compared. '
        '(b) all 16 subsets of corner points x all subsets of dimensions with up to two missing, acceptance compared with the documented table. Distinct by corner points.')
ASSUMPTIONS = ['angles of edges below 90 degrees, dihedral within +-90 degrees, positive chords and span (outside, the corner order is re-arranged)']
WAYS = ('a', 'b', 'c', 'd', 'ad', 'bc', 'abcd')
KEYS = ('inner_chord', 'inner_alpha', 'inner_beta', 'inner_axis', 'outer_chord', 'outer_alpha', 'outer_beta', 'outer_axis', 'span', 'sweep', 'dihedral')


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    P.io = io


def bounds(ctx):
    return {'deviations': 5 if ctx.thorough else 4, 'missing_dimensions': 3 if ctx.thorough else 2}


def driver(ch):
    g = {'inner_chord': ch.pick('ic', (1.2, 0.8)), 'outer_chord': ch.pick('oc', (0.7, 1.2)),
         'inner_alpha': ch.pick('ia', (0.0, 5.0, -30.0)), 'outer_alpha': ch.pick('oa', (0.0, -4.0, 20.0)),
         'inner_beta': ch.pick('ib', (0.0, 6.0, -40.0)), 'outer_beta': ch.pick('ob', (0.0, -5.0)),
         'inner_axis': ch.pick('ix', (None, 0.4, 0.0)), 'outer_axis': ch.pick('ox', (None, 0.1, 1.0)),
         'span': ch.pick('span', (2.0, 0.9)), 'sweep': ch.pick('sweep', (0.0, 25.0, -10.0, 80.0)), 'dihedral': ch.pick('dih', (0.0, 8.0, -15.0, 80.0, 90.0))}
    return {'kind': 'shape', 'geo': g, 'ref': ch.pick('ref', ([0.0, 0.0, 0.0], [1.5, 2.0, -0.5]))}


def cases(ctx):
    b = bounds(ctx)
    cs, nodes, _ = explore.enumerate_cases(driver, bound=b['deviations'])
    out = [((0,) + c, x) for c, x in cs]
    shapes = [{'inner_chord': 1.2, 'outer_chord': 0.7, 'inner_alpha': 0.0, 'outer_alpha': 3.0, 'inner_beta': 0.0, 'outer_beta': 0.0, 'inner_axis': 0.3, 'outer_axis': 0.25,
               'span': 2.0, 'sweep': 0.0, 'dihedral': 4.0},
              {'inner_chord': 1.2, 'outer_chord': 0.7, 'inner_alpha': 2.0, 'outer_alpha': 3.0, 'inner_beta': 1.0, 'outer_beta': 2.0, 'inner_axis': 0.3, 'outer_axis': 0.25,
               'span': 2.0, 'sweep': 20.0, 'dihedral': 4.0}]
    for s, shape in enumerate(shapes):
        inner, outer = [k for k in KEYS if k.startswith('inner')], [k for k in KEYS if k.startswith('outer')]
        miss = [m for n in range(b['missing_dimensions'] + 1) for m in itertools.combinations(KEYS, n)]
        miss += [tuple(inner), tuple(outer), KEYS, tuple(inner + outer), tuple(inner[:3]), tuple(outer[:3]), tuple(inner) + ('span',), tuple(outer) + ('sweep',), tuple(inner[:3]) + ('outer_chord',)]
        for m in miss:
            for n in range(5):
                for v in itertools.combinations('abcd', n):
                    for style in ('absent', 'null'):
                        nodes += 1
                        out.append(((1, len(out)), {'kind': 'subset', 'geo': shape, 'missing': list(m), 'corners': ''.join(v), 'style': style}))
    return out, nodes, False


def corners(g, ref):
    """Independent construction"""
    ia = 0.25 if g['inner_axis'] is None else g['inner_axis']
    oa = 0.25 if g['outer_axis'] is None else g['outer_axis']

    def edge(chord, alpha, beta):
        v = np.array([math.cos(math.radians(beta)), math.sin(math.radians(beta)), -math.cos(math.radians(beta))*math.tan(math.radians(alpha))])
        return chord*v/np.linalg.norm(v)
    ad = edge(g['inner_chord'], g['inner_alpha'], g['inner_beta'])
    bc = edge(g['outer_chord'], g['outer_alpha'], g['outer_beta'])
    # span vector s of the leading edge in the yz plane (|s| = span) such that the twist axis, s + o, points in direction of the dihedral
    o = (oa*bc - ia*ad)[1:]
    e = np.array([math.cos(math.radians(g['dihedral'])), math.sin(math.radians(g['dihedral']))])
    perp = np.array([-e[1], e[0]])
    sp = -o @ perp
    s = e*math.sqrt(g['span']**2 - sp**2) + perp*sp
    a = np.array(ref, dtype=float)
    b = a + np.array([g['span']*math.tan(math.radians(g['sweep'])), s[0], s[1]])
    return {'a': a, 'b': b, 'c': b + bc, 'd': a + ad}


def expected_accept(given, corner):
    dims = [k for k in KEYS if not k.endswith('axis')]
    if corner == 'abcd':
        return True
    if corner in ('a', 'b', 'c', 'd'):
        return all(k in given for k in dims)
    if corner == 'ad':
        return all(k in given for k in dims if not k.startswith('inner'))
    if corner == 'bc':
        return all(k in given for k in dims if not k.startswith('outer'))
    return False


_ws = {}


def load(corner, geo, null=False, keys=KEYS):
    if os.getpid() not in _ws:
        root = proj.fresh_dir()
        f = proj.write_project(root, {'wings': []}, [{}])
        _ws[os.getpid()] = (root, P.io.native.settings.load(f))
    root, settings = _ws[os.getpid()]
    v = {k: [float(x) for x in p] for k, p in corner.items()}
    if null:
        v = {k: v.get(k) for k in 'abcd'}
        geo = {k: geo.get(k) for k in KEYS}
    seg = {'uid': 's', 'vertices': v, 'airfoils': {'inner': 'NACA0000', 'outer': 'NACA0000'}, 'panels': {'num_c': 2, 'num_s': 2}}
    if geo:
        seg['geometry'] = geo
    proj._put(root + '/aircraft/ac.json', {'uid': 'ac', 'refs': dict(pt.REFS), 'wings': [{'uid': 'w', 'symmetry': 2, 'segments': [seg], 'controls': []}]})
    return P.io.native.aircraft.load(settings)


def mesh(ac):
    st = pt.one_state(ac, {})
    return np.array(pt.lattice_for(ac, st, pt.make_settings({'_do_normal_rotations': False})).p)


def run_case(case):
    if case['kind'] == 'subset':
        return run_subset(case)
    g = case['geo']
    exp = corners(g, case['ref'])
    full = {k: x for k, x in g.items() if x is not None}
    ref_mesh = None
    for way in WAYS:
        geo = {} if way == 'abcd' else {k: x for k, x in full.items() if not (way == 'ad' and k.startswith('inner') and not k.endswith('axis') or
                                                                               way == 'bc' and k.startswith('outer') and not k.endswith('axis'))}
        if way == 'abcd':
            geo = {k: x for k, x in full.items() if k.endswith('axis')}
        ac = load({k: exp[k] for k in way}, geo)
        s = ac.wings['w'].segments['s']
        for k in 'abcd':
            close('corner', s.vertices[k], exp[k], atol=1e-9, what=f'corner {k} of the segment defined by {way} (given {g})')
        if way == 'abcd':
            for k in KEYS:
                x = 0.25 if g[k] is None else g[k]
                close('derived-dimension', s.geometry[k], x, atol=1e-7, what=f'{k} derived from four corner points')
            # the dimensions derived from the corner points reproduce them
            geo = {k: float(s.geometry[k]) for k in KEYS}
            geo['dihedral'] = max(-90.0, min(90.0, geo['dihedral']))  # rounding: outside, the corner order is re-arranged
            ac2 = load({'a': exp['a']}, geo)
            for k in 'abcd':
                close('reproduce', ac2.wings['w'].segments['s'].vertices[k], exp[k], atol=1e-8, what=f'corner {k} from derived dimensions')
        m = mesh(ac)
        if ref_mesh is None:
            ref_mesh = m
        close('mesh', m, ref_mesh, atol=1e-8, what=f'mesh of the segment defined by {way}')
    return np.round(ref_mesh, 6).tolist()


def run_subset(case):
    exp = corners(case['geo'], [0.5, 1.0, 0.2])
    given = {k: x for k, x in case['geo'].items() if k not in case['missing']}
    acc = expected_accept(given, case['corners'])
    try:
        ac = load({k: exp[k] for k in case['corners']}, given, null=case['style'] == 'null')
        mesh(ac)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        require(not acc, 'valid-refused', f'corners {case["corners"]!r} without {case["missing"]}: {type(e).__name__}: {e}')
        return ['refused']
    require(acc, 'invalid-accepted', f'corners {case["corners"]!r} without {case["missing"]} accepted')
    axes = {'inner_axis', 'outer_axis'} & set(case['missing'])
    if not axes:
        for k in 'abcd':
            close('corner', ac.wings['w'].segments['s'].vertices[k], exp[k], atol=1e-9, what=f'corner {k} (corners {case["corners"]}, without {case["missing"]})')
    return ['accepted', case['corners']]
