"""C09: scaling and invariance laws."""
import copy
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close
from mc.props import c07

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database within their own departure bound, and: Every aircraft/flight-state pair within `bound` departures of the default, run together with its transformed partners (density x k, speed and rates x k, geometry x k, '
        'translated, linear combination of rates). Distinct by coefficients.')
ASSUMPTIONS = ['geometry scaling only up to the far-field truncation of the trailing legs (2e-4)']
prepare = lambda ctx: pt.load()


def bounds(ctx):
    return {'deviations': 3 if ctx.thorough else 2, 'factors': '2.5 and 0.1 (density), 3 (speed), 0.2 and 4 (geometry; 0.01 instead of 4 for large aircraft)'}


def driver(ch):
    wings = c07.aircraft(ch)
    st = c07.state(ch)
    refs = dict(pt.REFS)
    refs['gcenter'] = ch.pick('cg', ([0.3, 0.0, 0.1], [-1.0, 0.5, 0.5]))
    return {'wings': wings, 'state': st, 'refs': refs}


def shipped(ch):
    sp = gen.pick_shipped(ch, names=gen.SHIPPED[:3], counts=((1, 1),))
    return {'wings': sp['wings'], 'refs': sp['refs'], 'state': {'alpha': 3.0, 'beta': ch.pick('beta', (4.0, 0.0)), 'rate_P': ch.pick('P', (0.3, 0.0)), 'rate_Q': 0.1, 'rate_R': -0.2}}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=1)


def transform(spec, k=1.0, t=(0, 0, 0)):
    s = copy.deepcopy(spec)
    mv = lambda p: [k*x + o for x, o in zip(p, t)]
    for w in s['wings']:
        for g in w['segs']:
            g['v'] = {q: mv(p) for q, p in g['v'].items()}
    r = s['refs']
    r['gcenter'], r['rcenter'] = mv(r['gcenter']), mv(r['rcenter'])
    r['area'] *= k*k
    r['chord'] *= k
    r['span'] *= k
    return s


def run(spec, d):
    _, _, lat, vd = pt.run_spec(spec, d)
    F, C = pt.loads(vd)
    return F, C, np.array(vd.panelwise['gamma']), np.array(vd.panelwise['cp'])


def cmpf(sig, F2, F, rtol, what, qS, ref):
    close(sig, F2[:6], F[:6], rtol=rtol, atol=1e-12*qS, what=what + ' forces')
    close(sig, F2[6:], F[6:], rtol=rtol, atol=1e-12*qS*ref, scale=np.max(np.abs(F[6:])) + ref*np.max(np.abs(F[:6])), what=what + ' moments')


def run_case(case):
    d = dict(pt.STATE, **case['state'])
    spec = {'wings': case['wings'], 'refs': case['refs']}
    F, C, g, cp = run(spec, d)
    qS = 0.5*d['density']*d['airspeed']**2*spec['refs']['area']
    cs = np.max(np.abs(C))
    T = 1e-9
    for k in (2.5, 0.1):
        F2, C2, g2, cp2 = run(spec, dict(d, density=d['density']*k))
        cmpf('density', F2, k*F, T, f'density x {k}:', k*qS, 5)
        close('density', C2, C, rtol=T, scale=cs, what='coefficients, density scaled')
        close('density', g2, g, rtol=T, what='circulation, density scaled')
        close('density', cp2, cp, rtol=T, what='pressure coefficients, density scaled')
    k = 3.0
    F2, C2, g2, cp2 = run(spec, dict(d, airspeed=d['airspeed']*k, **{r: d[r]*k for r in ('rate_P', 'rate_Q', 'rate_R')}))
    cmpf('speed', F2, k*k*F, T, 'speed scaled:', k*k*qS, 5)
    close('speed', C2, C, rtol=T, scale=cs, what='coefficients, speed scaled')
    close('speed', g2, k*g, rtol=T, what='circulation, speed scaled')
    # linearity of the circulation in each rate and in airspeed
    for key, h in (('rate_P', 0.7), ('rate_Q', -0.9), ('rate_R', 1.3), ('airspeed', 0.5*d['airspeed'])):
        ga = run(spec, dict(d, **{key: d[key] + h}))[2]
        gb = run(spec, dict(d, **{key: d[key] + 2*h}))[2]
        close('linear-' + key, gb - ga, ga - g, rtol=1e-8, scale=np.max(np.abs(gb)) + np.max(np.abs(g)), what=f'circulation not linear in {key}')
    # translation
    Ft, Ct, gt, _ = run(transform(spec, 1.0, shift(case['wings'])), d)
    cmpf('translation', Ft, F, 1e-6, 'translated:', qS, 5)
    close('translation', Ct, C, rtol=1e-6, scale=cs, what='coefficients, translated')
    # geometric scaling at constant reduced rates
    big = max(abs(x) for w in case['wings'] for g in w['segs'] for p in g['v'].values() for x in p) > 30
    for k in (0.2, 0.01) if big else (0.2, 4.0):
        Fs, Cs, gs, cps = run(transform(spec, k), dict(d, **{r: d[r]/k for r in ('rate_P', 'rate_Q', 'rate_R')}))
        close('geometry', Cs, C, rtol=2e-4, scale=cs, what=f'coefficients, geometry x {k}')
        close('geometry', gs, k*g, rtol=2e-4, what=f'circulation, geometry x {k}')
    return [round(float(x), 7) for x in C], {'runs': 16}


def shift(wings):
    """A translation that keeps every symmetric wing symmetric"""
    t = [12.0, -7.0, 5.0]
    for w in wings:
        if w['sym']:
            t[pt.SYM_AXIS[w['sym']]] = 0.0
    return t
