"""C08: consistency of loads and coefficients."""
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close
from mc.props import c07

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database with uniform panel counts within their own departure bound, and: '
        'Every aircraft/flight-state/reference-value combination within `bound` departures of the default; all panelwise results, totals and coefficients are recomputed from the '
        'circulations and the lattice. Distinct by coefficients.')
ASSUMPTIONS = ['loads act at the mid-point of the bound leg', 'body axes for moments, wind axes from alpha and beta for drag, side force and lift']
prepare = lambda ctx: pt.load()


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3}


def driver(ch):
    wings = c07.aircraft(ch)
    st = c07.state(ch)
    refs = {'gcenter': ch.pick('cg', ([0.3, 0.0, 0.1], [-4.0, 2.5, 1.5])), 'rcenter': ch.pick('rp', ([0.2, 0.0, -0.1], [1.0, -3.0, 2.0])),
            'area': ch.pick('area', (4.0, 17.0, 0.02)), 'chord': ch.pick('chord', (1.25, 0.3, 20.0)), 'span': ch.pick('span', (5.0, 11.0, 0.7))}
    return {'wings': wings, 'state': st, 'refs': refs}


def shipped(ch):
    sp = gen.pick_shipped(ch, counts=((1, 1), (2, 1), (1, 2)))
    for w in sp['wings']:
        for k, c in enumerate(w['ctrls']):
            c['defl'] = ch.pick('defl', (6.0, 0.0)) - 2.0*k
            c['deflm'] = -4.0 if w['sym'] else None
    return {'wings': sp['wings'], 'state': c07.state(ch), 'refs': sp['refs']}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=2 if ctx.thorough else 1)


def run_case(case):
    d = dict(pt.STATE, **case['state'])
    refs = case['refs']
    ac, st, lat, vd = pt.run_spec({'wings': case['wings'], 'refs': refs}, d)
    eps = pt.make_settings().settings['_epsilon']
    v, n = np.array(lat.v), np.array(lat.n)
    m = 0.5*(v[:, 1] + v[:, 2])
    L = v[:, 2] - v[:, 1]
    pw = {k: np.array(vd.panelwise[k]) for k in vd.panelwise if vd.panelwise[k] is not None}
    g = pw['gamma']
    iw = np.einsum('ijk,j->ik', pt.horseshoe_velocity(m, v, eps), g)
    iw_got = np.stack([pw['vx'], pw['vy'], pw['vz']], 1)
    close('induced-velocity', iw_got, iw, rtol=1e-7, atol=1e-9*d['airspeed'], what='induced velocity')
    close('induced-velocity', pw['vmag'], np.linalg.norm(iw, axis=1), rtol=1e-7, atol=1e-9*d['airspeed'], what='magnitude of induced velocity')
    vel = iw - c07.body_velocity(m, d, refs)
    F = d['density']*g[:, None]*np.cross(vel, L)
    got = np.stack([pw['fx'], pw['fy'], pw['fz']], 1)
    sc = np.max(np.abs(F))
    qS = 0.5*d['density']*d['airspeed']**2*np.sum(lat.a)
    close('panel-force', got, F, rtol=1e-7, atol=1e-11*qS, what='panel forces')
    close('panel-force', pw['fmag'], np.linalg.norm(F, axis=1), rtol=1e-7, atol=1e-11*qS, what='panel force magnitude')
    # totals from the reported panel forces
    f = vd.forces
    tot = got.sum(0)
    sc = np.abs(got).sum()
    close('total-force', [f['x'], f['y'], f['z']], tot, rtol=1e-10, scale=sc, what='total force')
    arm = m - np.array(refs['rcenter'])
    mom = np.cross(arm, got)
    close('total-moment', [f['l'], f['m'], f['n']], mom.sum(0), rtol=1e-10, scale=np.abs(mom).sum() + sc, what='total moment')
    a, b = np.radians(d['alpha']), np.radians(d['beta'])
    drag = np.array([np.cos(a)*np.cos(b), -np.sin(b), np.sin(a)*np.cos(b)])
    side = np.array([np.cos(a)*np.sin(b), np.cos(b), np.sin(a)*np.sin(b)])
    lift = np.array([-np.sin(a), 0, np.cos(a)])
    close('wind-axes', [f['D'], f['C'], f['L']], [tot @ drag, tot @ side, tot @ lift], rtol=1e-10, scale=sc, what='drag, side force, lift')
    q = 0.5*d['density']*d['airspeed']**2
    S = q*refs['area']
    den = dict(x=S, y=S, z=S, D=S, C=S, L=S, l=S*refs['span'], m=S*refs['chord'], n=S*refs['span'])
    for k in pt.FKEYS:
        close('coefficient', vd.coeffs[k], f[k]/den[k], rtol=1e-10, atol=1e-12*sc/S, what=f'coefficient {k}')
    cp = (got*n).sum(1)/(q*c_area(lat))
    close('pressure', pw['cp'], cp, rtol=1e-9, what='pressure coefficient')
    return [round(float(vd.coeffs[k]), 7) for k in pt.FKEYS], {'panels': len(v)}


def c_area(lat):
    from mc.props.c03 import true_area, planar
    p = np.array(lat.p)
    A = true_area(p)
    # warped panels: the lattice's own measure
    return np.where(planar(p), A, np.array(lat.a))
