"""C17: a deformation field moves exactly the wing side it is declared for."""
import json
import os

import numpy as np

from mc import pt, gen, explore, proj
from mc.pt import P, require, close
from mc.explore import Fail, Prune

LEVEL = 'exploration'
RULE = ('every configuration (wing names, planform, symmetry, segments, panels, controls, second wing) x entries of the deformation file x shape of the field within `bound` departures of the default, read from a real '
        'deformation file; every panel corner, panel normal and unaffected side compared with an independent computation from the undeformed mesh; the lattice generated repeatedly. Distinct by mesh and file entries.')
ASSUMPTIONS = ['the field is interpolated as by the external aeroframe package: displacement and small rotations of the closest field point', 'undeformed mesh: C01, C02', 'panels divide the displaced strip as the undeformed one']

NAMES = ('w', 'a_main', 'w_m', 'x_m_m', 'm_m_wing', '_m', '_w', 'Wing 1', 'w_mm')
SHAPES = ('bend', 'zero', 'shift', 'rot', 'single', 'far', 'le')
ENTRIES = ('right', 'left', 'both', 'differ', 'ignored', 'right+ignored', 'other', 'other-left', 'none')


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    P.io = io


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3, 'names': len(NAMES), 'field_shapes': len(SHAPES), 'file_entries': len(ENTRIES)}


def driver(ch):
    name = ch.pick('name', NAMES)
    entry = ch.pick('entry', ENTRIES)
    shape = ch.pick('shape', SHAPES)
    w = gen.pick_wing(ch, 'w', syms=(2, 0, 1, 3), nsegs=(1, 2), ncs=(2, 1), nss=(2, 1, 3), lays=('none', 'flap', 'flapfull', 'slat', 'span2'), quads=('swept', 'twisted', 'dihedral', 'fin', 'pointed'))
    defl = ch.pick('defl', ((0.0, 0.0), (7.0, -4.0))) if w['ctrls'] else (0.0, 0.0)
    second = ch.pick('second', ('no', 'before', 'after', 'similar'))
    # fields which the file format cannot address: names starting with an underscore are ignored
    if entry == 'none' and shape != SHAPES[0]:
        raise Prune()
    return {'name': name, 'entry': entry, 'shape': shape, 'wing': w, 'defl': defl, 'second': second}


def cases(ctx):
    return explore.enumerate_cases(driver, bound=bounds(ctx)['deviations'])


def field(shape, k, pts):
    """[[x, y, z, dx, dy, dz, rx, ry, rz], ...] in the vicinity of pts"""
    lo, hi = pts.min(0), pts.max(0)
    c, h = (lo + hi)/2, (hi - lo)
    if shape == 'single':
        return [[c[0] + 0.11, c[1], c[2], 0.1*k, 0.2, -0.3, 0.02, 0.03*k, -0.04]]
    if shape == 'far':
        return [[50 + i*7.3, 3.1, 20.0, 0.1*i, k, -0.2*i, 0.0, 0.0, 0.0] for i in range(3)]
    out = []
    for i in range(5):
        t = i/4
        p = lo + np.array([0.3 + 0.21*t, t*1.013 - 0.01, t*0.93])*h
        if shape == 'le':
            p = lo + np.array([0.0, t*1.013 - 0.01, t])*h
        u = {'zero': (0, 0, 0), 'shift': (0.3, -0.1*k, 0.2)}.get(shape, (0.05*t, -0.03*t*t*k, 0.4*t*t*k))
        r = (0.03*t*k, -0.05*(t + 0.2), 0.02*k) if shape == 'rot' else (0, 0, 0)
        out.append(list(p) + list(u) + list(r))
    return out


def apply(f, p):
    """displacement of the points p by the field f; second value: ambiguous points"""
    f = np.array(f, float)
    d = np.linalg.norm(p[:, None, :] - f[None, :, :3], axis=2)
    o = np.sort(d, axis=1)
    amb = (o[:, 1] - o[:, 0] < 1e-9) if len(f) > 1 else np.zeros(len(p), bool)
    out = np.array(p)
    for i, j in enumerate(d.argmin(1)):
        r = p[i] - f[j, :3]
        out[i] += f[j, 3:6]
        for ax, ang in zip(np.eye(3), f[j, 6:9]):
            if ang:
                out[i] += pt.rot(ax, ang) @ r - r
    return out, amb


def build(case):
    w = dict(case['wing'], uid=case['name'])
    w['ctrls'] = [dict(c, defl=case['defl'][0], deflm=case['defl'][1]) for c in w['ctrls']]
    wings = [w]
    o = pt.wing({'similar': case['name'] + 'm'}.get(case['second'], 'tail'), 2, [pt.seg('s0', *gen.quad('swept', (6, 0.2, 0.5)), nc=1, ns=2)])
    if case['second'] != 'no':
        wings = [o, w] if case['second'] == 'before' else [w, o]
    return {'wings': wings}


def lattice(ac, again=False):
    st = pt.one_state(ac, {})
    lat = pt.lattice_for(ac, st, pt.make_settings(), fresh=not again)
    return lat


def meshes(lat, spec):
    out = {}
    for w in spec['wings']:
        for m in (False, True):
            idx = [i for e in pt.entries_of(lat, w['uid'], m) for i in e.pan_idx]
            out[w['uid'], m] = (lat.p[idx].copy(), lat.n[idx].copy(), [e.subarea.parent_control.uid if e.subarea.parent_control else None for e in pt.entries_of(lat, w['uid'], m) for i in e.pan_idx])
    return out


def run_case(case):
    spec = build(case)
    name = case['name']
    base = pt.make_aircraft(spec)
    und = meshes(lattice(base), spec)
    if name.startswith('_') and case['entry'] != 'ignored':
        pass
    sym = case['wing']['sym']
    P0 = und[name, False][0].reshape(-1, 3)
    P1 = und[name, True][0].reshape(-1, 3) if sym else pt.mirror(P0, 2)
    f0, f1 = field(case['shape'], 1.0, P0), field(case['shape'], -0.7 if case['entry'] == 'differ' else 1.0, P1)
    other = [w['uid'] for w in spec['wings'] if w['uid'] != name]
    e = case['entry']
    file, want = {}, {}

    def put(uid, side, f):
        key = uid + ('_m' if side else '')
        file[key] = f
        if key.startswith('_'):
            return     # ignored
        # a name ending in the suffix addresses the mirrored side of the remaining name
        if key.endswith('_m'):
            want[key[:-2], True] = f
        else:
            want[key, False] = f
    if e in ('right', 'both', 'differ', 'right+ignored'):
        put(name, False, f0)
    if e in ('left', 'both', 'differ'):
        put(name, True, f1)
    if e in ('ignored', 'right+ignored'):
        file['_beam'] = f0
        file['_' + name] = f0
        file['_' + name + '_m'] = f1
    if e in ('other', 'other-left'):
        if not other:
            return ['skip', e]
        fo = field(case['shape'], 1.0, und[other[0], e == 'other-left'][0].reshape(-1, 3))
        put(other[0], e == 'other-left', fo)
    d = proj.fresh_dir('c17')
    try:
        proj._put(os.path.join(d, 'deformation', 'def.json'), file)
        st = P.st.Settings('a.json', d, settings_dict={'aircraft': 'x.json', 'state': 'x.json', 'deformation': 'def.json'}, make_dirs=False)
        ac = pt.make_aircraft(spec)
        unknown = sorted(u for u, _ in want if u not in {w['uid'] for w in spec['wings']})
        try:
            P.io.native.deformation.load(ac, st)
        except Exception as x:
            require(unknown, 'refused', f'{sorted(file)} for wings {[w["uid"] for w in spec["wings"]]}: {type(x).__name__}: {x}')
            return ['refused', len(unknown)]
        require(not unknown, 'unknown-accepted', f'{sorted(file)} for wings {[w["uid"] for w in spec["wings"]]}')
        require(json.load(open(os.path.join(d, 'deformation', 'def.json'))) == json.loads(json.dumps(file)), 'file-changed', 'deformation file')
    finally:
        proj.rmtree(d)
    lat = lattice(ac)
    got = meshes(lat, spec)
    moved = 0
    for w in spec['wings']:
        for m in (False, True) if w['sym'] else (False,):
            p0, n0, c0 = und[w['uid'], m]
            p, n, c = got[w['uid'], m]
            what = f'wing {w["uid"]} {"mirrored" if m else "own"} side, entries {sorted(file)}'
            require(p.shape == p0.shape and c == c0, 'topology', f'{what}: {p.shape} {p0.shape}')
            f = want.get((w['uid'], m))
            if f is None or case['shape'] == 'zero':
                close('unaffected', p, p0, rtol=1e-12, what=what + ' corners')
                close('unaffected', n, n0, rtol=1e-12, what=what + ' normals')
                continue
            if case['shape'] == 'shift':
                close('shift', p, p0 + np.array(f[0][3:6]), rtol=1e-11, what=what + ' shifted corners')
                close('shift', n, n0, rtol=1e-9, what=what + ' normals')
            exp, ok = expected(w, m, p0.reshape(-1, 3), f)
            moved += len(p)
            close('displaced', np.where(ok[:, None], p.reshape(-1, 3), exp), exp, rtol=1e-9, what=what + ' corners')
            # normals
            nn = pt.base_normals(p)
            ref = np.array(nn)
            for i, u in enumerate(c):
                if u is not None:
                    cs = [q for q in w['ctrls'] if q['uid'] == u][0]
                    df = cs['deflm'] if m else cs['defl']
                    if df:
                        h = hinge(w, m, p0[i], f, cs['hi'])
                        ref[i] = pt.rot(h, np.radians(df)) @ nn[i]
            close('normals', n, ref, rtol=1e-7, what=what + ' normals')
    # the same model again
    for k in range(2):
        again = meshes(lattice(ac, again=True), spec)
        for key in got:
            for j in (0, 1):
                close('repeat', again[key][j], got[key][j], rtol=0, atol=1e-13, what=f'{key}: lattice generated again')
    return [case['entry'], moved, explore.fingerprint(np.round(lat.p, 7).tolist())]


def locate(w, m, pts):
    """(eta, xsi, segment) of undeformed points"""
    q = pt.mirror(pts, w['sym']) if m else np.array(pts)
    best = np.full(len(q), np.inf)
    eta, xsi, sg = np.zeros(len(q)), np.zeros(len(q)), np.zeros(len(q), int)
    for k, s in enumerate(w['segs']):
        e, x, r = pt.inv_bil(s['v'], q)
        r = r + np.maximum(0, -e) + np.maximum(0, e - 1) + np.maximum(0, -x) + np.maximum(0, x - 1)
        r = np.where(np.isfinite(r), r, np.inf)
        b = r < best
        best[b], eta[b], xsi[b], sg[b] = r[b], e[b], x[b], k
    assert best.max() < 1e-8, best.max()
    return eta, xsi, sg


def edges(w, m, eta, sg, f):
    le = np.array([pt.bil(w['segs'][k]['v'], e, 0.0) for e, k in zip(eta, sg)])
    te = np.array([pt.bil(w['segs'][k]['v'], e, 1.0) for e, k in zip(eta, sg)])
    if m:
        le, te = pt.mirror(le, w['sym']), pt.mirror(te, w['sym'])
    le, a = apply(f, le)
    te, b = apply(f, te)
    return le, te, a | b


def expected(w, m, pts, f):
    eta, xsi, sg = locate(w, m, pts)
    le, te, amb = edges(w, m, eta, sg, f)
    return le + xsi[:, None]*(te - le), ~amb


def hinge(w, m, panel, f, xh):
    """hinge direction on the displaced strip of the panel, from its first to its second side"""
    # sides at which the panel ends in spanwise direction: corners 0 and 3, corners 1 and 2
    eta, _, sg = locate(w, m, panel[:2])
    if sg[0] != sg[1]:
        mid = locate(w, m, panel.mean(0)[None])
        sg = np.array([mid[2][0]]*2)
        q = pt.mirror(panel[:2], w['sym']) if m else panel[:2]
        eta = pt.inv_bil(w['segs'][sg[0]]['v'], q)[0]
    le, te, _ = edges(w, m, eta, sg, f)
    h = le + xh*(te - le)
    return h[1] - h[0]
