"""C07: influence matrix, right-hand side and flow tangency."""
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database with uniform panel counts within their own departure bound, and: '
        'Every aircraft/flight-state pair within `bound` departures of the default (planform, symmetry, segments, controls, deflection, camber, second wing, panel counts, alpha, beta, '
        'airspeed, P, Q, R, centre of gravity, regularisation). All matrix and right-hand-side entries and the residual of every panel are compared. Distinct by circulation.')
ASSUMPTIONS = ['trailing-leg end points are those of the lattice', 'regularised Biot-Savart kernel as documented: 1+epsilon on the product of distances']
prepare = lambda ctx: pt.load()


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3}


def aircraft(ch, nsegs=(1, 2), quads=None):
    w = gen.pick_wing(ch, 'w', syms=(2, 0, 1, 3), airfoils=gen.CAMBER, nsegs=nsegs, ncs=(2, 1, 3), nss=(2, 1, 3), quads=quads,
                      lays=['none', 'flaptaper', 'both', 'span2taper'])
    d = ch.pick('defl', (0.0, 8.0, -20.0))
    for k, c in enumerate(w['ctrls']):
        c['defl'] = d - 2.0*k
        c['deflm'] = None if w['sym'] == 0 else 0.5*d
    wings = [w]
    e = ch.pick('extra', list(gen.EXTRA))
    if gen.EXTRA[e]:
        wings.append(gen.extra_wing(e))
    return gen.scaled(wings, ch.pick('scale', (1.0, 40.0, 0.03)))


def state(ch):
    return {'alpha': ch.pick('alpha', (3.0, 0.0, -6.0, 25.0, 90.0)), 'beta': ch.pick('beta', (4.0, 0.0, -9.0, 60.0)),
            'airspeed': ch.pick('airspeed', (100.0, 1.5)), 'density': ch.pick('density', (1.0, 0.4)),
            'rate_P': ch.pick('P', (0.3, 0.0, -2.0)), 'rate_Q': ch.pick('Q', (-0.2, 0.0, 1.5)), 'rate_R': ch.pick('R', (0.1, 0.0, 1.1))}


def driver(ch):
    wings = aircraft(ch)
    st = state(ch)
    refs = dict(pt.REFS)
    refs['gcenter'] = ch.pick('cg', ([0.3, 0.0, 0.1], [0.0, 0.0, 0.0], [-4.0, 2.5, 1.5]))
    eps = ch.pick('eps', (None, 1e-3, 1e-9))
    return {'wings': wings, 'state': st, 'refs': refs, 'eps': eps}


def shipped(ch):
    sp = gen.pick_shipped(ch, counts=((1, 1), (2, 1), (1, 2)))
    for w in sp['wings']:
        for k, c in enumerate(w['ctrls']):
            c['defl'] = ch.pick('defl', (6.0, 0.0)) - 2.0*k
            c['deflm'] = -4.0 if w['sym'] else None
    return {'wings': sp['wings'], 'state': state(ch), 'refs': sp['refs'], 'eps': None}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=2 if ctx.thorough else 1)


def body_velocity(pts, d, refs):
    """Velocity of body points (positive Drela convention: minus free stream plus rotation about the CG)"""
    om = np.array([d['rate_P'], d['rate_Q'], d['rate_R']])
    return -d['airspeed']*pt.freestream(d['alpha'], d['beta']) + np.cross(om, pts - np.array(refs['gcenter']))


def run_case(case):
    d = dict(pt.STATE, **case['state'])
    spec = {'wings': case['wings'], 'refs': case['refs']}
    ac, st, lat, vd = pt.run_spec(spec, d, {} if case['eps'] is None else {'_epsilon': case['eps']})
    eps = pt.make_settings().settings['_epsilon'] if case['eps'] is None else case['eps']
    c, n, v = np.array(lat.c), np.array(lat.n), np.array(lat.v)
    A = np.einsum('ijk,ik->ij', pt.horseshoe_velocity(c, v, eps), n)
    M = np.array(vd.matrix_downwash)
    # entries next to the regularised core amplify rounding of the distances
    close('influence-matrix', M, A, rtol=1e-7, what='influence matrix')
    b = (body_velocity(c, d, case['refs'])*n).sum(1)
    close('rhs', np.array(vd.array_rhs), b, rtol=1e-10, atol=1e-9*d['airspeed'], what='right-hand side')
    g = np.array(vd.panelwise['gamma'])
    require(g.shape == b.shape and np.all(np.isfinite(g)), 'gamma', f'circulation {g}')
    res = A @ g - b
    scale = np.abs(A) @ np.abs(g) + np.abs(b)
    close('tangency', res/max(np.max(scale), 1e-6*d['airspeed']), np.zeros_like(res), atol=1e-7, what='flow through panels')
    return np.round(g, 6).tolist(), {'panels': len(c), 'matrix_entries': len(c)**2}
