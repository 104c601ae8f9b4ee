"""C11: acceptance and conversion of flight states."""
import copy
import json
import math
import os

import numpy as np

from mc import pt, explore, proj, stage
from mc.pt import P, require, close
from mc.explore import Fail

LEVEL = 'exploration'
RULE = ('(a) the full product of the forms (absent, null, number, list of 1..3 numbers, list of nulls, list mixing numbers and null, list with text, list of wrong length) of airspeed, density, mach and altitude; '
        '(b) the full product of allowed pair x list length x entry position x alpha values x beta values (inside, on and just outside the limits, NaN) x altitude sets; (c) every parameter missing, null or of wrong length; (d) altitudes in every layer of the atmosphere at every position x small and large speeds. '
        'Every case is read from a state file by the real loader; acceptance is compared with an independent predicate and accepted states with an independent standard atmosphere. Distinct by (accepted, values).')
ASSUMPTIONS = ['accepted means: the file loads and its states can be iterated', 'altitudes from -4 to 79 km (own implementation of the ICAO standard atmosphere)']
FORMS = ('absent', 'null', 'num', 'list', 'nulls', 'mixed', 'text', 'long')
PAIRS = (('airspeed', 'density'), ('airspeed', 'altitude'), ('mach', 'altitude'))
VALS = {'airspeed': [100.0, 52.5, 210.0], 'density': [1.225, 0.9, 0.31], 'mach': [0.2, 0.55, 0.8], 'altitude': [0, 3000.0, 15000.0],
        'alpha': [2.0, -3.5, 11.0], 'beta': [0, 5.0, -1.5], 'rate_P': [0.0, 0.1, -0.2], 'rate_Q': [0.3, 0, 0.05], 'rate_R': [0.0, -0.4, 0.15]}
ANG = [4.0, -90, 90.0, -90.0001, 90.5, -200.0, 135.0, float('nan'), 0]


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    P.io = io


def bounds(ctx):
    return {'list_length': 4 if ctx.thorough else 3, 'forms': len(FORMS), 'angles': len(ANG)}


def val(key, n, k=0):
    return [VALS[key][(i + k) % 3] for i in range(n)]


def form(key, f, n):
    v = val(key, n)
    return {'null': None, 'num': v[0], 'list': v, 'nulls': [None]*n, 'mixed': v[:-1] + [None] if n > 1 else [None, v[0]],
            'text': v[:-1] + ['x'], 'long': v + v[:1]}[f]


def base(n, scalar):
    return {k: (val(k, 1)[0] if scalar else val(k, n)) for k in ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')}


def driver_a(ch, nmax):
    n = ch.pick('n', range(1, nmax + 1))
    aero = base(n, n == 1 and ch.pick('scalar', (False, True)))
    for k in ('airspeed', 'density', 'mach', 'altitude'):
        f = ch.pick(k, FORMS)
        if f != 'absent':
            aero[k] = form(k, f, n)
    return {'aero': aero}


def driver_b(ch, nmax):
    n = ch.pick('n', range(1, nmax + 1))
    pair = ch.pick('pair', PAIRS)
    aero = base(n, False)
    for k in pair:
        aero[k] = val(k, n, ch.pick('shift', (0, 1)) if k == 'altitude' else 0)
    i = ch.pick('pos', range(n))
    aero['alpha'][i] = ch.pick('alpha', ANG)
    j = ch.pick('posb', range(n))
    aero['beta'][j] = ch.pick('beta', ANG)
    return {'aero': aero}


def driver_c(ch, nmax):
    n = ch.pick('n', range(1, nmax + 1))
    pair = ch.pick('pair', PAIRS)
    aero = base(n, False)
    for k in pair:
        aero[k] = val(k, n)
    for _ in range(2):
        k = ch.pick('key', [None] + sorted(aero))
        if k is None:
            break
        how = ch.pick('how', ('drop', 'null', 'scalar', 'long', 'short', 'text', 'nullentry', 'int'))
        v = aero.get(k)
        if not isinstance(v, list) or any(not isinstance(x, (int, float)) for x in v):
            raise explore.Prune()
        if how == 'drop':
            del aero[k]
        elif how == 'null':
            aero[k] = None
        elif how == 'scalar':
            aero[k] = v[0]
        elif how == 'long':
            aero[k] = v + v[:1]
        elif how == 'short':
            if n == 1:
                raise explore.Prune()
            aero[k] = v[:-1]
        elif how == 'text':
            aero[k] = v[:-1] + ['abc']
        elif how == 'nullentry':
            aero[k] = v[:-1] + [None]
        elif how == 'int':
            aero[k] = [int(x) for x in v]
    return {'aero': aero}


def driver_d(ch, nmax):
    n = ch.pick('n', range(1, nmax + 1))
    k = ch.pick('with', ('airspeed', 'mach'))
    aero = base(n, False)
    aero[k] = val(k, n)
    aero['altitude'] = val('altitude', n)
    aero['altitude'][ch.pick('pos', range(n))] = ch.pick('height', HEIGHTS)
    aero[k][ch.pick('posk', range(n))] = ch.pick('value', (0.05, 2.5, 1, 0))
    return {'aero': aero}


def cases(ctx):
    nmax = bounds(ctx)['list_length']
    out, nodes = [], 0
    for i, d in enumerate((driver_a, driver_b, driver_c, driver_d)):
        cs, nd, _ = explore.enumerate_cases(lambda ch: d(ch, nmax))
        out += [((i,) + c, x) for c, x in cs]
        nodes += nd
    return out, nodes, False


LAYERS = ((11000.0, -0.0065), (20000.0, 0.0), (32000.0, 0.001), (47000.0, 0.0028), (51000.0, 0.0), (71000.0, -0.0028), (80000.0, -0.002))
HEIGHTS = (-4000.0, -1, 0.5, 10999.0, 11020.0, 20062.0, 25000, 32200.0, 50000.0, 60000.0, 79000.0)


def isa(h):
    """density and speed of sound of the ICAO standard atmosphere, geometric height -5..80 km"""
    g, R, r, gam = 9.80665, 287.05287, 6356766.0, 1.4
    H = r*h/(r + h)
    T, p, H0 = 288.15, 101325.0, 0.0
    for top, lapse in LAYERS:
        dH = min(H, top) - H0
        if lapse:
            p *= ((T + lapse*dH)/T)**(-g/(R*lapse))
            T += lapse*dH
        else:
            p *= math.exp(-g*dH/(R*T))
        if H <= top:
            return p/(R*T), math.sqrt(gam*R*T)
        H0 = top


def model(aero):
    """None (refuse) or list of states"""
    norm = {}
    for k, v in aero.items():
        if v is None or (isinstance(v, list) and all(x is None for x in v)):
            continue
        norm[k] = v if isinstance(v, list) else [v]
    need = ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')
    if any(k not in norm for k in need):
        return None
    if any(isinstance(x, bool) or not isinstance(x, (int, float)) for v in norm.values() for x in v):
        return None
    if len({len(v) for v in norm.values()}) != 1:
        return None
    given = {k for k in ('airspeed', 'density', 'mach', 'altitude') if k in norm}
    if given not in [set(p) for p in PAIRS]:
        return None
    if not all(-90 <= x <= 90 for k in ('alpha', 'beta') for x in norm[k]):
        return None
    out = []
    for i in range(len(norm['alpha'])):
        s = {k: float(norm[k][i]) for k in need}
        if 'altitude' in given:
            rho, a = isa(norm['altitude'][i])
        s['density'] = float(norm['density'][i]) if 'density' in given else rho
        s['airspeed'] = float(norm['airspeed'][i]) if 'airspeed' in given else norm['mach'][i]*a
        out.append((s, {k for k in norm}))
    return out


_ws = {}


def workspace():
    if os.getpid() not in _ws:
        root = proj.fresh_dir()
        os.makedirs(root + '/state')
        _ws[os.getpid()] = (root, P.st.Settings('s.json', root, settings_dict={'aircraft': 'a.json', 'state': 's.json'}, make_dirs=False))
    return _ws[os.getpid()]


def run_case(case):
    exp = model(case['aero'])
    root, settings = workspace()
    with open(root + '/state/s.json', 'w') as fp:
        json.dump({'aero': case['aero']}, fp)
    try:
        state = P.io.native.state.load(settings)
        got = [(dict(s.aero), np.array(s.free_stream_velocity_vector)) for s in state.iter_states()]
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        require(exp is None, 'valid-refused', f'{type(e).__name__}: {e}')
        return ['refused']
    require(exp is not None, 'invalid-accepted', f'accepted: {got}')
    require(len(got) == len(exp), 'count', f'{len(got)} states, expected {len(exp)}')
    for i, ((s, given), (a, v)) in enumerate(zip(exp, got)):
        h = case['aero'].get('altitude')
        h = h[i] if isinstance(h, list) else h
        for k, x in s.items():
            if k in given:
                require(a[k] == x, 'given-value', f'{k} of state {i}: {a[k]} instead of {x}')
            else:
                close('derived-value', a[k], x, rtol=3e-5 if (h or 0) > 20100 else 2e-6, what=f'{k} of state {i}')
        close('free-stream', v, a['airspeed']*pt.freestream(a['alpha'], a['beta']), rtol=1e-12, what=f'free stream of state {i}')
    return [got[0][0], len(got)]
