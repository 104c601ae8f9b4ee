"""C06: deflection and camber rotate exactly the right normals."""
import itertools
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database with uniform panel counts within their own departure bound, and: '
        'Every wing within `bound` departures of the default: planform, symmetry, segments, control layout incl. tapered chord and hinge lines, deflections of both sides '
        'independently (sign, zero, missing mirrored value), airfoil pairs (NACA and files in both formats), panel counts, an undeflected second wing. All panel normals are compared. Distinct by normals.')
ASSUMPTIONS = ['the two rotations of a cambered control-surface panel may be applied in either order',
               'the sense of camber on the mirrored half of xy- and yz-symmetric wings is not checked (cambered airfoils there only on the defined half)',
               'the local airfoil and its camber-line angle are those of the external airfoils package',
               'hinge lines tapering over several segments: interpolated by distance along the control']
AFS = (('NACA0000', 'NACA0000'), ('NACA2412', 'NACA2412'), ('NACA4415', 'NACA0010'), ('NACA0012', 'NACA2408'), ('{a}', '{a}'), ('{a}', 'NACA0000'), ('NACA2412', '{b}'), ('{b}', '{a}'), ('naca4412', 'naca0009'))


def contour(camber, twist, n=41):
    """upper and lower side of an airfoil, leading edge first"""
    x = 0.5*(1 - np.cos(np.linspace(0, np.pi, n)))
    t = 0.6*(0.2969*np.sqrt(x) - 0.1260*x - 0.3516*x**2 + 0.2843*x**3 - 0.1036*x**4)
    yc = camber*x*(1 - x)*(1 + twist*x)
    return np.stack([x, yc + t], 1), np.stack([x, yc - t], 1)


def prepare(ctx):
    pt.load()
    import os
    from mc import stage
    # airfoil files in the two documented formats
    d = os.path.join(stage.scratch_root(), 'foils')
    os.makedirs(d, exist_ok=True)
    P.foils = {'{a}': os.path.join(d, 'first.dat'), '{b}': os.path.join(d, 'NACA-like.foil')}
    row = lambda p: '   '.join(f'{v:.7f}' for v in p)
    up, lo = contour(0.12, 0.8)
    with open(P.foils['{a}'], 'w') as fp:
        fp.write('AIRFOIL A\n' + '\n'.join(row(q) for q in list(up[::-1]) + list(lo[1:])) + '\n')
    up, lo = contour(-0.08, -0.5, 35)
    with open(P.foils['{b}'], 'w') as fp:
        fp.write(f'AIRFOIL B\n{len(up)}.  {len(lo)}.\n\n' + '\n'.join(map(row, up)) + '\n\n' + '\n'.join(map(row, lo)) + '\n')


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3}


def driver(ch):
    w = gen.pick_wing(ch, 'w', airfoils=AFS, nsegs=(1, 2, 3), ncs=(2, 1, 3), nss=(2, 1, 3),
                      lays=['flaptaper', 'none', 'slat', 'both', 'twoflaps', 'flapfull', 'bothsame', 'span2', 'span2taper', 'span3taper', 'outer'])
    d = ch.pick('d', (10.0, 0.0, 0.2, -15.0, 45.0, -90.0))
    m = ch.pick('m', ('same', 0.0, -6.0, 20.0, None))
    for k, c in enumerate(w['ctrls']):
        c['defl'] = d if k == 0 else 0.5*d - 3.0
        c['deflm'] = None if w['sym'] == 0 else c['defl'] if m == 'same' else m if m is None else m*(1 - 0.3*k)
        h = ch.pick(f'h{k}', (None, 0.05, -0.05))
        if h is not None:
            c['hi'], c['ho'] = round(c['xi'] + h, 3), round(c['xo'] + (h if h > 0 else 0.03), 3)
    wings = [w]
    if ch.pick('extra', (0, 1)):
        wings.insert(0, gen.extra_wing('tail'))
    return {'wings': wings}


def shipped(ch):
    ws = gen.pick_shipped(ch, counts=((1, 1), (2, 1), (1, 2)))['wings']
    d = ch.pick('d', (10.0, -20.0))
    m = ch.pick('m', ('same', -6.0))
    for w in ws:
        for k, c in enumerate(w['ctrls']):
            c['defl'] = d - 3.0*k
            c['deflm'] = None if not w['sym'] else c['defl'] if m == 'same' else m
    return {'wings': ws}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=2 if ctx.thorough else 1)


def flat(v):
    a, b, c, d = (np.array(v[k]) for k in 'abcd')
    n = np.cross(c - a, d - b)
    return abs(np.dot(b - a, n))/np.linalg.norm(n) < 1e-9


def hinge_axes(w, c):
    """segment uid -> list of possible hinge directions on the defined side (inner to outer); empty: not determined"""
    from mc.props.c02 import spans
    vs = {s['uid']: s['v'] for s in w['segs']}
    sp = spans(w, c)
    pnt = lambda uid, e, x: pt.bil(vs[uid], np.array([e]), np.array([x]))[0]
    if len(sp) == 1 or c['hi'] == c['ho']:
        out = {}
        for k, (uid, e0, e1) in enumerate(sp):
            x0, x1 = (c['hi'], c['ho'])
            out[uid] = [pnt(uid, e1, x1) - pnt(uid, e0, x0)] if (flat(vs[uid]) or x0 == x1) else []
        return out
    # fraction of the distance, measured with any chord positions in between
    xs = sorted((c['hi'], c['ho'], c['xi'], c['xo']))
    L = []
    for uid, e0, e1 in sp:
        l = [np.linalg.norm(pnt(uid, e1, x1) - pnt(uid, e0, x0)) for x0 in xs for x1 in xs]
        L.append((min(l), max(l)))
    out = {}

    def frac(m, hi):
        a = sum(l[1 if hi else 0] for l in L[:m])
        b = sum(l[0 if hi else 1] for l in L[m:])
        return a/(a + b)
    for k, (uid, e0, e1) in enumerate(sp):
        out[uid] = []
        if flat(vs[uid]):
            for h0, h1 in itertools.product((0, 1), repeat=2):
                x0 = c['hi'] + (c['ho'] - c['hi'])*frac(k, h0)
                x1 = c['hi'] + (c['ho'] - c['hi'])*frac(k + 1, h1)
                out[uid].append(pnt(uid, e1, x1) - pnt(uid, e0, x0))
    return out


def run_case(case):
    from airfoils import Airfoil, MorphAirfoil
    from airfoils.fileio import import_airfoil_data
    foil_of = lambda x: Airfoil(*import_airfoil_data(P.foils[x])) if x in P.foils else Airfoil.NACA4(x[4:])
    wings = [dict(w, segs=[dict(s, af=[P.foils.get(x, x) for x in s['af']]) for s in w['segs']]) for w in case['wings']]
    ac = pt.make_aircraft({'wings': wings})
    st = pt.one_state(ac, {})
    lat = pt.lattice_for(ac, st, pt.make_settings())
    n0 = pt.base_normals(np.array(lat.p))
    seen = 0
    for w in case['wings']:
        hinges = {c['uid']: hinge_axes(w, c) for c in w['ctrls']}
        cs = {c['uid']: c for c in w['ctrls']}
        foils = {s['uid']: MorphAirfoil(*[foil_of(x) for x in s['af']]) for s in w['segs']}
        sv = {s['uid']: s for s in w['segs']}
        for mir in ((False, True) if w['sym'] else (False,)):
            for e in pt.entries_of(lat, w['uid'], mir):
                idx = list(e.pan_idx)
                if not idx:
                    continue
                seen += len(idx)
                s = sv[e.subarea.parent_segment.uid]
                pc = e.subarea.parent_control
                p = np.array(lat.p)[idx]
                # hinge rotation
                rots = [np.eye(3)]
                if pc is not None:
                    c = cs[pc.uid]
                    ang = c['defl'] if not mir else (c['defl'] if c['deflm'] is None else c['deflm'])
                    axes = hinges[pc.uid][s['uid']]
                    if ang:
                        if mir:
                            axes = [pt.mirror(a, w['sym'])*(-1 if w['sym'] == 2 else 1) for a in axes]
                        rots = [pt.rot(a, np.radians(ang)) for a in axes]
                    if not rots:
                        continue
                # camber rotation
                cam = [np.eye(3)]*len(idx)
                if s['af'] != ['NACA0000', 'NACA0000'] and list(s['af']) != ['NACA0000', 'NACA0000']:
                    if mir and w['sym'] != 2 or s['v']['a'] == s['v']['d'] or s['v']['b'] == s['v']['c']:
                        continue    # triangles: the chordwise position in the point is not determined
                    q = pt.mirror(p, w['sym']) if mir else p
                    eta, xsi, _ = pt.inv_bil(s['v'], q.reshape(-1, 3))
                    eta, xsi = eta.reshape(-1, 4), xsi.reshape(-1, 4)
                    em = 0.5*(eta.min() + eta.max())
                    foil = foils[s['uid']].at_eta(em)
                    f, r = xsi[:, :2].mean(1), xsi[:, 2:].mean(1)
                    o = np.argsort(f)
                    A, B, C, D = p[o[0], 0], p[o[0], 1], p[o[-1], 2], p[o[-1], 3]
                    span, chord = (B - A) + (C - D), (D - A) + (C - B)
                    ax = np.cross(np.cross(span, chord), chord)
                    th = [float(np.radians(foil.camber_line_angle(x))) for x in f + 0.75*(r - f)]
                    cam = [pt.rot(ax, t) for t in th]
                g = np.array(lat.n)[idx]
                exp = [[np.stack([(c @ h if order else h @ c) @ n for c, n in zip(cam, n0[idx])]) for h in rots] for order in (1, 0)]
                errs = []
                for ex in exp:
                    mid = sum(ex)/len(ex)
                    spread = max(np.max(np.abs(x - mid)) for x in ex)
                    errs.append(np.max(np.abs(g - mid)) - 1.05*spread)
                tol = 1e-7
                if min(errs) > tol:
                    what = 'normal-unchanged' if pc is None and len(rots) == 1 and all(np.allclose(c, np.eye(3)) for c in cam) else 'normal-deflection' if pc is not None else 'normal-camber'
                    raise pt.Fail(what, f"{w['uid']}/{s['uid']}/{pc.uid if pc is not None else '-'} mirrored={mir}: got {g.tolist()} expected {exp[0][0].tolist()}")
    require(seen == len(lat.p), 'panels-covered', f'{seen} of {len(lat.p)}')
    close('normal-unit', np.linalg.norm(np.array(lat.n), axis=1), np.ones(len(lat.p)), atol=1e-9, what='length of normals')
    return np.round(lat.n, 6).tolist(), {'panels': seen}
