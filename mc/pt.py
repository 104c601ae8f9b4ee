"""Driver layer: builds real aircraft/states/settings objects from plain-data
specs and runs the real vortex-lattice pipeline.  Also the boring reference model."""
import contextlib
import io
import math
import os
import sys
import warnings

import numpy as np

from mc import stage
from mc.explore import Fail

warnings.simplefilter('ignore')
np.seterr(all='ignore')

# Populated by load()
P = type('P', (), {})()


def load(extra=()):
    lib = stage.stage(extra=extra)
    import pytornado.aero.vlm as vlm
    import pytornado.objects.aircraft as ac
    import pytornado.objects.objecttools as ot
    import pytornado.objects.settings as st
    import pytornado.objects.state as fs
    import pytornado.objects.vlm_struct as vs
    _smooth_camber()
    P.vlm, P.ac, P.ot, P.st, P.fs, P.vs, P.lib = vlm, ac, ot, st, fs, vs, lib
    return P


def _smooth_camber():
    """The external `airfoils` package differentiates camber lines with a step of 1e-12, i.e. with noise of
    order 1e-5 rad.  A larger step (same quantity, same interface) makes runs comparable to rounding level."""
    import airfoils.airfoils as af

    def camber_line_angle(self, x):
        x = np.asarray(x, dtype=float)
        h = 1e-6
        th = np.rad2deg(np.arctan((self.camber_line(x + h) - self.camber_line(x - h))/(2*h)))
        return np.where(np.abs(th) > 50, 0.0, th)
    af.Airfoil.camber_line_angle = camber_line_angle


@contextlib.contextmanager
def quiet():
    yield


# ----------------------------------------------------------------------
# Specs
# ----------------------------------------------------------------------

REFS = {'gcenter': [0.3, 0.0, 0.1], 'rcenter': [0.2, 0.0, -0.1], 'area': 4.0, 'chord': 1.25, 'span': 5.0}


def seg(uid, a, b, c, d, af=('NACA0000', 'NACA0000'), nc=2, ns=2):
    return {'uid': uid, 'v': {'a': list(map(float, a)), 'b': list(map(float, b)),
                              'c': list(map(float, c)), 'd': list(map(float, d))},
            'af': list(af), 'nc': nc, 'ns': ns}


def ctrl(uid, kind, seg_i, seg_o, eta_i, eta_o, xsi_i, xsi_o, hi=None, ho=None, defl=0.0, deflm=None, nc=1):
    return {'uid': uid, 'kind': kind, 'si': seg_i, 'so': seg_o, 'ei': float(eta_i), 'eo': float(eta_o),
            'xi': float(xsi_i), 'xo': float(xsi_o),
            'hi': float(xsi_i if hi is None else hi), 'ho': float(xsi_o if ho is None else ho),
            'defl': defl, 'deflm': deflm, 'nc': nc}


def wing(uid, sym, segments, controls=()):
    return {'uid': uid, 'sym': sym, 'segs': list(segments), 'ctrls': list(controls)}


def make_aircraft(spec, generate=True):
    ac = P.ac.Aircraft()
    ac.uid = spec.get('uid', 'ac')
    for k, v in (spec.get('refs') or REFS).items():
        ac.refs[k] = list(v) if isinstance(v, (list, tuple)) else v
    for w in spec['wings']:
        wo = ac.add_wing(w['uid'])
        wo.symmetry = w['sym']
        for s in w['segs']:
            so = wo.add_segment(s['uid'])
            for k, v in s['v'].items():
                so.vertices[k] = list(v) if v is not None else None
            for k, v in (s.get('geo') or {}).items():
                so.geometry[k] = v
            so.airfoils['inner'], so.airfoils['outer'] = s['af']
            so.panels['num_c'], so.panels['num_s'] = s['nc'], s['ns']
        for c in w['ctrls']:
            co = wo.add_control(c['uid'])
            co.device_type = c['kind']
            co.deflection = c['defl']
            co.deflection_mirror = c['deflm']
            co.segment_uid['inner'], co.segment_uid['outer'] = c['si'], c['so']
            co.rel_vertices['eta_inner'], co.rel_vertices['eta_outer'] = c['ei'], c['eo']
            co.rel_vertices['xsi_inner'], co.rel_vertices['xsi_outer'] = c['xi'], c['xo']
            co.rel_hinge_vertices['xsi_inner'], co.rel_hinge_vertices['xsi_outer'] = c['hi'], c['ho']
            co.panels['num_c'] = c['nc']
            co.check()
    if generate:
        ac.generate()
    return ac


def make_settings(d=None, **kw):
    base = {'aircraft': 'x.json', 'state': 'x.json'}
    base.update(d or {})
    kw.setdefault('make_dirs', False)
    return P.st.Settings('mc.json', stage.scratch_root(), settings_dict=base, **kw)


STATE = {'airspeed': 100.0, 'density': 1.0, 'alpha': 3.0, 'beta': 0.0,
         'rate_P': 0.0, 'rate_Q': 0.0, 'rate_R': 0.0}


def make_states(*dicts):
    """A FlightState holding the given flight states"""
    full = [dict(STATE, **d) for d in dicts]
    aero = {k: [float(d[k]) for d in full] for k in full[0]}
    aero['mach'] = None
    aero['altitude'] = None
    fs = P.fs.FlightState()
    # Only given keys are lists
    fs.update_from_dict({k: v for k, v in aero.items() if v is not None})
    return fs


def cur_states(aircraft, fs):
    for cs in fs.iter_states():
        cs.refs = aircraft.refs
        yield cs


def one_state(aircraft, d):
    return next(iter(cur_states(aircraft, make_states(d))))


def lattice_for(aircraft, state, settings, fresh=True):
    if fresh:
        P.vlm.set_autopanels(aircraft, settings)
    return P.vlm.gen_lattice(aircraft, state, settings, make_new_subareas=fresh)


def solve(aircraft, state, settings, fresh=True, vlmdata=None):
    lat = lattice_for(aircraft, state, settings, fresh)
    vd = vlmdata if vlmdata is not None else P.vs.VLMData()
    P.vlm.calc_downwash(lat, vd)
    P.vlm.calc_boundary(lat, state, vd)
    P.vlm.solver(vd)
    P.vlm.calc_results(lat, state, vd)
    return lat, vd


def run_spec(spec, sdict, settings=None):
    ac = make_aircraft(spec)
    st = one_state(ac, sdict)
    lat, vd = solve(ac, st, make_settings(settings))
    return ac, st, lat, vd


FKEYS = ['x', 'y', 'z', 'D', 'C', 'L', 'l', 'm', 'n']


def loads(vd):
    return np.array([vd.forces[k] for k in FKEYS]), np.array([vd.coeffs[k] for k in FKEYS])


# ----------------------------------------------------------------------
# Comparison
# ----------------------------------------------------------------------

def close(sig, got, exp, rtol=1e-9, atol=0.0, scale=None, what=''):
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        raise Fail(sig, f'{what}: shape {got.shape} != {exp.shape}')
    if not np.all(np.isfinite(got)):
        raise Fail(sig, f'{what}: not finite: {got.ravel()[:12]}')
    if not np.all(np.isfinite(exp)):
        raise AssertionError(f'{what}: reference not finite')
    s = scale if scale is not None else (np.max(np.abs(exp)) if exp.size else 0.0)
    tol = atol + rtol*s
    err = np.abs(got - exp)
    if err.size and np.max(err) > tol:
        i = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Fail(sig, f'{what}: at {tuple(map(int, i))} got {got[i]!r} expected {exp[i]!r} (err {err[i]:.3e} > tol {tol:.3e})')


def require(cond, sig, msg=''):
    if not cond:
        raise Fail(sig, msg() if callable(msg) else msg)


# ----------------------------------------------------------------------
# Reference geometry
# ----------------------------------------------------------------------

SYM_AXIS = {1: 2, 2: 1, 3: 0}


def mirror(p, sym):
    p = np.array(p, dtype=float)
    p[..., SYM_AXIS[sym]] *= -1
    return p


def bil(v, eta, xsi):
    a, b, c, d = (np.asarray(v[k], dtype=float) for k in 'abcd')
    eta = np.asarray(eta, dtype=float)[..., None]
    xsi = np.asarray(xsi, dtype=float)[..., None]
    top = a + eta*(b - a)
    bot = d + eta*(c - d)
    return top + xsi*(bot - top)


def inv_bil(v, pts):
    """(eta, xsi, residual) of points on the bilinear patch, by Gauss-Newton"""
    a, b, c, d = (np.asarray(v[k], dtype=float) for k in 'abcd')
    pts = np.asarray(pts, dtype=float).reshape(-1, 3)
    n = len(pts)
    eta = np.full(n, 0.5)
    xsi = np.full(n, 0.5)
    e, g, h = b - a, d - a, a - b + c - d
    big = max(np.dot(g, g), np.dot(c - b, c - b))
    for _ in range(60):
        r = pts - bil(v, eta, xsi)
        je = e + xsi[:, None]*h
        jx = g + eta[:, None]*h
        aa = (je*je).sum(1)
        bb = (je*jx).sum(1)
        cc = (jx*jx).sum(1)
        r1 = (je*r).sum(1)
        r2 = (jx*r).sum(1)
        det = aa*cc - bb*bb
        # where the patch ends in a point, the chordwise coordinate is not determined
        at = det < 1e-14*aa*big
        det = np.where(at, 1.0, det)
        de = np.where(at, r1/np.where(at, aa, 1.0), (cc*r1 - bb*r2)/det)
        dx = np.where(at, 0.0, (aa*r2 - bb*r1)/det)
        eta = eta + de
        xsi = xsi + dx
        if max(np.max(np.abs(de)), np.max(np.abs(dx))) < 1e-15:
            break
    res = np.linalg.norm(pts - bil(v, eta, xsi), axis=1)
    return eta, xsi, res


def freestream(alpha_deg, beta_deg):
    a, b = math.radians(alpha_deg), math.radians(beta_deg)
    return np.array([math.cos(a)*math.cos(b), -math.sin(b), math.sin(a)*math.cos(b)])


def rot(axis, ang):
    """Rodrigues rotation matrix"""
    k = np.asarray(axis, dtype=float)
    k = k/np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(ang)*K + (1 - math.cos(ang))*(K @ K)


def base_normals(p):
    """Unit normals at the 3/4-chord, mid-span point of the bilinear panels"""
    Pp, Q, R, S = p[:, 0], p[:, 1], p[:, 2], p[:, 3]
    chord = 0.5*(R + S) - 0.5*(Pp + Q)
    span = (0.25*Q + 0.75*R) - (0.25*Pp + 0.75*S)
    n = np.cross(span, chord)
    return n/np.linalg.norm(n, axis=1)[:, None]


def horseshoe_velocity(pts, v, eps):
    """Velocity (per unit circulation) induced at pts (n,3) by each horseshoe v (m,4,3) -> (n,m,3)"""
    out = np.zeros((len(pts), len(v), 3))
    for k in range(3):
        r1 = pts[:, None, :] - v[None, :, k, :]
        r2 = pts[:, None, :] - v[None, :, k + 1, :]
        n1 = np.linalg.norm(r1, axis=2)
        n2 = np.linalg.norm(r2, axis=2)
        cr = np.cross(r1, r2)
        f = (1/n1 + 1/n2)/((r1*r2).sum(2) + n1*n2*(1 + eps))/(4*math.pi)
        out += f[:, :, None]*cr
    return out


def entries_of(lat, wing_uid, mirror_side):
    d = lat.bookkeeping_by_wing_uid_mirror if mirror_side else lat.bookkeeping_by_wing_uid
    return list(d.get(wing_uid, []))
