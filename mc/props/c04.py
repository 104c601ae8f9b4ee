"""C04: mirrored half of the mesh is the reflection of the defined half."""
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database with uniform panel counts within their own departure bound, and: '
        'Every mirrored wing within `bound` departures of the default: symmetry plane, planform, segments, control layout, panel counts, camber (xz plane), deflection; '
        'with and without a second wing before it. Distinct by mirrored mesh.')
ASSUMPTIONS = ['a deflection of the mirrored side is right-handed about the hinge line directed from the a-d edge to the b-c edge of the re-ordered vertices, as on the defined side']
prepare = lambda ctx: pt.load()

# corner order of the mirrored panel in terms of the defined one
ORDER = {1: [0, 1, 2, 3], 2: [1, 0, 3, 2], 3: [3, 2, 1, 0]}


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3}


def driver(ch):
    sym = ch.pick('sym', (2, 1, 3))
    af = [('NACA0000', 'NACA0000')] + ([('NACA2412', 'NACA0012'), ('NACA4415', 'NACA4415')] if sym == 2 else [])
    w = gen.pick_wing(ch, 'w', syms=(sym,), airfoils=af, nsegs=(1, 2, 3), ncs=(2, 1, 3), nss=(2, 1, 3), conts=('straight', 'kink', 'up'))
    d = ch.pick('defl', (0.0, 12.0, -7.0))
    for k, c in enumerate(w['ctrls']):
        c['defl'] = d + 2.0*k if d else 0.0
        c['deflm'] = c['defl'] if sym == 2 else -c['defl']
    extra = ch.pick('extra', (None, 2, 0))
    wings = [w]
    if extra is not None:
        wings.insert(0, pt.wing('v', extra, [pt.seg('s0', *gen.quad('fin', (1, 3.5, 2)), nc=2, ns=1)], []))
    return {'wings': wings, 'warp': 0}


def shipped(ch):
    n, u = ch.pick('wing', [(n, w['uid']) for n in gen.SHIPPED for w in gen.shipped(n)['wings'] if w['sym']])
    w = gen.shipped(n, *ch.pick('counts', ((1, 1), (2, 2), (1, 4))), only=u)['wings'][0]
    for k, c in enumerate(w['ctrls']):
        c['defl'] = c['deflm'] = ch.pick(f'defl{k}', (5.0, -12.0))
    return {'wings': [dict(w, uid='w')], 'warp': 0}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=2 if ctx.thorough else 1)


def key(q):
    return tuple(sorted(tuple(np.round(p, 7) + 0.0) for p in q))


def run_case(case):
    ac = pt.make_aircraft({'wings': case['wings']})
    st = pt.one_state(ac, {'alpha': 2.0, 'beta': 3.0})
    lat = pt.lattice_for(ac, st, pt.make_settings())
    w = case['wings'][-1]
    sym = w['sym']
    base, mirr = [], {}
    ax = pt.SYM_AXIS[sym]
    for mir in (False, True):
        for e in pt.entries_of(lat, 'w', mir):
            c = e.subarea.parent_control
            for i in e.pan_idx:
                if mir:
                    mirr.setdefault(key(lat.p[i]), []).append((i, e.subarea.parent_segment.uid, c.uid if c is not None else None))
                else:
                    base.append((i, e.subarea.parent_segment.uid, c.uid if c is not None else None))
    require(len(base) == sum(map(len, mirr.values())), 'mirror-count', f'{len(base)} panels, {sum(map(len, mirr.values()))} mirrored')
    out = []
    ip, im = [], []
    for i, s, c in base:
        k = key(pt.mirror(lat.p[i], sym))
        m = mirr.get(k)
        require(m, 'mirror-corners', f'panel {i} of {s}/{c} has no mirror image: {lat.p[i].tolist()}')
        j = m.pop()
        require(j[1:] == (s, c), 'mirror-owner', f'mirror image of panel of {(s, c)} belongs to {j[1:]}')
        ip.append(i)
        im.append(j[0])
        out.append(k)
    exp = pt.mirror(np.array(lat.p)[ip], sym)[:, ORDER[sym]]
    got = np.array(lat.p)[im]
    close('mirror-corner-order', got, exp, atol=1e-9, what='corners of mirrored panels')
    Pp, Q, R, S = exp[:, 0], exp[:, 1], exp[:, 2], exp[:, 3]
    close('mirror-bound', np.array(lat.v)[im][:, 1], 0.75*Pp + 0.25*S, atol=1e-9, what='bound vortex (a side)')
    close('mirror-bound', np.array(lat.v)[im][:, 2], 0.75*Q + 0.25*R, atol=1e-9, what='bound vortex (b side)')
    close('mirror-collocation', np.array(lat.c)[im], 0.125*(Pp + Q) + 0.375*(R + S), atol=1e-9, what='collocation point')
    close('mirror-area', np.array(lat.a)[im], np.array(lat.a)[ip], rtol=1e-9, what='area')
    # Normals, including deflection (and camber about the xz plane)
    n = pt.mirror(np.array(lat.n)[ip], sym)
    if sym == 1:
        n = -n
    warped = sym == 3 and w['segs'] and any(not flat(s['v']) for s in w['segs'])
    if not warped:   # the 3/4-chord points of both halves differ for yz symmetry
        close('mirror-normal', np.array(lat.n)[im], n, atol=1e-9, what='normals')
    return out, {'panels': len(lat.p)}


def flat(v):
    a, b, c, d = (np.array(v[k]) for k in 'abcd')
    n = np.cross(c - a, d - b)
    return abs(np.dot(b - a, n))/np.linalg.norm(n) < 1e-9
