"""C05: left-right reflection of configuration and flow."""
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database within their own departure bound, and: Every aircraft/flight-state pair within `bound` departures of the default (planform, symmetry flag, segments, controls with independent left/right deflections, camber, '
        'second wing, panel counts, alpha, beta, P, Q, R, lateral offsets of the reference points) is run together with its mirror image. Distinct by loads.')
ASSUMPTIONS = ['the mirror image of a wing without xz symmetry is the wing defined with y negated, inner and outer ends exchanged and the segment order reversed']
prepare = lambda ctx: pt.load()


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3}


def driver(ch):
    w = gen.pick_wing(ch, 'w', syms=(2, 0, 1, 3), airfoils=gen.CAMBER, nsegs=(1, 2), ncs=(2, 1, 3), nss=(2, 1, 3),
                      lays=['flaptaper', 'none', 'both', 'span2taper', 'outer', 'twoflaps'])
    dl = ch.pick('defl', ((0.0, 0.0), (8.0, 8.0), (5.0, -3.0), (0.0, 6.0), (5.0, None)))
    for k, c in enumerate(w['ctrls']):
        c['defl'], c['deflm'] = dl[0]*(1 + k), None if dl[1] is None else dl[1]*(1 + 0.5*k)
        if w['sym'] == 0:
            c['deflm'] = None
    wings = [w]
    e = ch.pick('extra', list(gen.EXTRA))
    if gen.EXTRA[e]:
        wings.append(gen.extra_wing(e))
    wings = gen.scaled(wings, ch.pick('scale', (1.0, 40.0)))
    st = {'alpha': ch.pick('alpha', (3.0, 0.0, -6.0, 20.0)), 'beta': ch.pick('beta', (4.0, 0.0, -9.0)),
          'rate_P': ch.pick('P', (0.0, 0.7)), 'rate_Q': ch.pick('Q', (0.0, 0.5)), 'rate_R': ch.pick('R', (0.0, -0.6))}
    refs = dict(pt.REFS)
    off = ch.pick('off', (0.0, 0.2))
    refs['gcenter'] = [0.3, off, 0.1]
    refs['rcenter'] = [0.2, -2*off, -0.1]
    return {'wings': wings, 'state': st, 'refs': refs}


def shipped(ch):
    sp = gen.pick_shipped(ch, counts=((1, 1), (2, 1)))
    d = ch.pick('defl', ((5.0, -3.0), (0.0, 0.0)))
    for w in sp['wings']:
        for k, c in enumerate(w['ctrls']):
            c['defl'], c['deflm'] = d[0]*(1 + k), d[1] if w['sym'] else None
    return {'wings': sp['wings'], 'refs': sp['refs'], 'state': {'alpha': 3.0, 'beta': ch.pick('beta', (4.0, 0.0)), 'rate_P': ch.pick('P', (0.3, 0.0)), 'rate_Q': 0.1, 'rate_R': ch.pick('R', (-0.2, 0.0))}}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=2 if ctx.thorough else 1)


SIGN = np.array([1, -1, 1, 1, -1, 1, -1, 1, -1.0])


def run_case(case):
    spec = {'wings': case['wings'], 'refs': case['refs']}
    _, _, lat, vd = pt.run_spec(spec, case['state'])
    _, _, lat2, vd2 = pt.run_spec(gen.mirror_spec(spec), gen.mirror_state(case['state']))
    F, C = pt.loads(vd)
    F2, C2 = pt.loads(vd2)
    require(len(lat.p) == len(lat2.p), 'mirror-panels', f'{len(lat.p)} and {len(lat2.p)} panels')
    d = dict(pt.STATE, **case['state'])
    qS = 0.5*d['density']*d['airspeed']**2*case['refs']['area']
    tol = 1e-8
    for nm, sl, ref in (('force', slice(0, 6), 1.0), ('moment', slice(6, 9), 5.0)):
        close('lr-' + nm, F2[sl], (SIGN*F)[sl], rtol=tol, atol=1e-10*qS*ref, scale=ref*np.max(np.abs(F[:6])), what=f'mirrored {nm}s {pt.FKEYS[sl]}')
    close('lr-coefficient', C2, SIGN*C, rtol=5*tol, atol=1e-9, what=f'mirrored coefficients {pt.FKEYS}')
    g1, g2 = np.sort(vd.panelwise['gamma']), np.sort(vd2.panelwise['gamma'])
    close('lr-gamma', g2, g1, rtol=tol, atol=1e-9, what='circulations (sorted)')
    return [round(float(x), 6) for x in C], {'panels': len(lat.p)}
