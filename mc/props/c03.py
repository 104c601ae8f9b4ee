"""C03: panel elements follow from the corners."""
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database with uniform panel counts within their own departure bound, and: '
        'Every aircraft within `bound` departures of the default (planform, symmetry, segments, panel counts, controls) combined with every '
        'flow-angle pair of the grid; distinct by mesh and flow direction.')
ASSUMPTIONS = ['trailing legs are finite; only their direction, equal length and common sense are fixed']
prepare = lambda ctx: pt.load()

ALPHAS = (3.0, 0.0, -7.5, 45.0, 90.0, -90.0)
BETAS = (0.0, 4.0, -10.0, 60.0, 90.0)


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3}


def driver(ch):
    w = gen.pick_wing(ch, 'w', nsegs=(1, 2), airfoils=(('NACA0000', 'NACA0000'),), ncs=(2, 1, 3), nss=(2, 1, 3),
                      lays=['none', 'flaptaper', 'both', 'span2taper'])
    return {'wings': gen.scaled([w], ch.pick('scale', (1.0, 40.0, 0.02))), 'alpha': ch.pick('alpha', ALPHAS), 'beta': ch.pick('beta', BETAS)}


def shipped(ch):
    return {'wings': gen.pick_shipped(ch, counts=((1, 1), (2, 2), (1, 4)))['wings'], 'alpha': ch.pick('alpha', ALPHAS), 'beta': ch.pick('beta', BETAS)}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=2 if ctx.thorough else 1)


def true_area(p):
    """Area of a bilinear patch (exact for planar quads)"""
    Pp, Q, R, S = p[:, 0], p[:, 1], p[:, 2], p[:, 3]
    g, w = np.polynomial.legendre.leggauss(8)
    g, w = (g + 1)/2, w/2
    A = 0
    for u, wu in zip(g, w):
        for t, wt in zip(g, w):
            ts = (1 - t)*(Q - Pp) + t*(R - S)
            tc = (1 - u)*(S - Pp) + u*(R - Q)
            A = A + wu*wt*np.linalg.norm(np.cross(ts, tc), axis=1)
    return A


def planar(p):
    n = np.cross(p[:, 2] - p[:, 0], p[:, 3] - p[:, 1])
    h = np.abs(((p[:, 1] - p[:, 0])*n).sum(1))/np.linalg.norm(n, axis=1)
    return h < 1e-9


def check_elements(lat, alpha, beta):
    p = np.array(lat.p)
    Pp, Q, R, S = p[:, 0], p[:, 1], p[:, 2], p[:, 3]
    close('bound-leg', lat.v[:, 1], 0.75*Pp + 0.25*S, atol=1e-10, what='bound vortex start')
    close('bound-leg', lat.v[:, 2], 0.75*Q + 0.25*R, atol=1e-10, what='bound vortex end')
    close('bound-midpoint', lat.bound_leg_midpoints, 0.5*(lat.v[:, 1] + lat.v[:, 2]), atol=1e-10, what='bound leg midpoint')
    close('collocation', lat.c, 0.125*(Pp + Q) + 0.375*(R + S), atol=1e-10, what='collocation point')
    n = pt.base_normals(p)
    close('normal', lat.n, n, atol=1e-9, what='normal vector')
    d = pt.freestream(alpha, beta)
    t1 = lat.v[:, 0] - lat.v[:, 1]
    t4 = lat.v[:, 3] - lat.v[:, 2]
    l1, l4 = np.linalg.norm(t1, axis=1), np.linalg.norm(t4, axis=1)
    size = np.max(np.abs(p)) + 1
    require(np.all(l1 > 50*size) and np.all(l4 > 50*size), 'trailing-length', f'{l1.min()} {l4.min()} vs size {size}')
    close('trailing-dir', t1/l1[:, None], np.tile(d, (len(p), 1)), atol=1e-9, what='first trailing leg direction')
    close('trailing-dir', t4/l4[:, None], np.tile(d, (len(p), 1)), atol=1e-9, what='second trailing leg direction')
    close('trailing-length', l1, l4, rtol=1e-9, what='leg lengths')
    A = true_area(p)
    pl = planar(p)
    close('area', np.array(lat.a)[pl], A[pl], rtol=1e-9, what='panel area')
    if not np.all(pl):
        close('area', np.array(lat.a)[~pl], A[~pl], rtol=5e-2, what='area of warped panel')
    inf = lat.info
    close('stats', [inf['area_min'], inf['area_max'], inf['area_avg']], [np.min(lat.a), np.max(lat.a), np.mean(lat.a)], rtol=1e-9, what='area statistics')
    span = np.linalg.norm(0.5*(Q - Pp + R - S), axis=1)
    chord = np.linalg.norm(0.5*(S - Pp + R - Q), axis=1)
    ar = span/chord
    close('stats', [inf['aspect_min'], inf['aspect_max'], inf['aspect_avg']], [ar.min(), ar.max(), ar.mean()], rtol=1e-9, what='aspect statistics')


def run_case(case):
    ac = pt.make_aircraft({'wings': case['wings']})
    st = pt.one_state(ac, {'alpha': case['alpha'], 'beta': case['beta']})
    lat = pt.lattice_for(ac, st, pt.make_settings({'_do_normal_rotations': False}))
    check_elements(lat, case['alpha'], case['beta'])
    return [np.round(lat.p, 6).tolist(), np.round(lat.v[:, 0], 0).tolist()], {'panels': len(lat.p)}
