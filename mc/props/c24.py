"""C24: equivalent descriptions of the same aircraft give the same results."""
import copy
import itertools
import json
import os

import numpy as np

from mc import pt, gen, explore, proj
from mc.pt import P, require, close
from mc.props import c05

LEVEL = 'exploration'
RULE = ('Aircraft shipped in the database within one departure, and every aircraft/flight-state pair within `bound` departures of the default, run together with all its re-descriptions: all orders of wings, controls and (without controls across segments) segments, every symmetric wing as two '
        'halves, every segment split at every panel line, every control split at every panel line, components renamed, file entries permuted. Distinct by coefficients.')
ASSUMPTIONS = ['splitting only for segments with one airfoil along the span', 'a mirrored half about the xy or yz plane is written with the orientation of its own (uncambered, undeflected) panels free']


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    P.io = io


def bounds(ctx):
    return {'deviations': 3 if ctx.thorough else 2, 'orders': 'all permutations', 'splits': 'all panel lines'}


def driver(ch):
    c = c05.driver(ch)
    third = ch.pick('third', (0, 1))
    if third:
        c['wings'].append(pt.wing('strake', 0, [pt.seg('k0', (-1.5, 0.3, 0.6), (-1.2, 1.1, 0.7), (-0.8, 1.1, 0.7), (-0.7, 0.3, 0.6), nc=1, ns=2)]))
    c['third'] = third
    return c


def shipped(ch):
    sp = gen.pick_shipped(ch, names=gen.SHIPPED if ch.thorough else gen.SHIPPED[:2], counts=((1, 2), (2, 1)))
    for w in sp['wings']:
        m = {s['uid']: f's{i}' for i, s in enumerate(w['segs'])}
        for s in w['segs']:
            s['uid'] = m[s['uid']]
        for k, c in enumerate(w['ctrls']):
            c['si'], c['so'] = m[c['si']], m[c['so']]
            c['defl'], c['deflm'] = 6.0 - 4.0*k, 3.0 if w['sym'] else None
    return {'wings': sp['wings'], 'refs': sp['refs'], 'third': 0, 'state': {'alpha': 3.0, 'beta': ch.pick('beta', (4.0, 0.0)), 'rate_P': 0.3, 'rate_Q': ch.pick('Q', (0.1, 0.0)), 'rate_R': -0.2}}


def cases(ctx):
    def drv(ch):
        ch.thorough = ctx.thorough
        return shipped(ch)
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), drv)


def halves(w):
    """the wing as two wings without symmetry; None if the mirrored half cannot be written that way"""
    own = dict(w, sym=0, ctrls=[dict(c, deflm=None) for c in w['ctrls']])
    if w['sym'] == 2:
        o = dict(own, uid=w['uid'] + 'L', ctrls=[dict(c, defl=c['deflm'] if c['deflm'] is not None else c['defl'], deflm=None) for c in w['ctrls']])
        return [own, gen.mirror_wing_y(o)]
    if any(c['defl'] or c['deflm'] for c in w['ctrls']) or any(a[-4:-2] != '00' for s in w['segs'] for a in s['af']):
        return None
    if w['sym'] == 1:
        mv = lambda v: {k: list(pt.mirror(v[k], 1)) for k in 'abcd'}
        return [own, dict(own, uid=w['uid'] + 'B', segs=[dict(s, v=mv(s['v'])) for s in w['segs']])]
    # leading and trailing edge exchange
    if w['ctrls']:
        return None
    mv = lambda v: {k: list(pt.mirror(v[j], 3)) for k, j in zip('abcd', 'dcba')}
    return [own, dict(own, uid=w['uid'] + 'B', segs=[dict(s, v=mv(s['v'])) for s in w['segs']])]


def split_segment(w, k, j):
    """segment k divided at its panel line j"""
    s = w['segs'][k]
    n, t = s['ns'], j/s['ns']
    v = {q: np.array(p) for q, p in s['v'].items()}
    e, f = v['a'] + t*(v['b'] - v['a']), v['d'] + t*(v['c'] - v['d'])
    mk = lambda uid, a, b, c, d, ns: dict(s, uid=uid, v={q: [float(x) for x in p] for q, p in zip('abcd', (a, b, c, d))}, ns=ns)
    u = s['uid']
    parts = [mk(u + 'i', v['a'], e, f, v['d'], j), mk(u + 'o', e, v['b'], v['c'], f, n - j)]
    ctrls = []
    for c in w['ctrls']:
        c = dict(c)
        if (c['si'] == u or c['so'] == u or c['si'] != c['so']) and (c['xi'] != c['xo'] or c['hi'] != c['ho']):
            i0, i1 = (int(c[x][1:]) for x in ('si', 'so'))
            if i0 <= k <= i1:
                return None     # a tapered control is interpolated along the segments that it crosses
        # an edge on the dividing line belongs to the part of the control
        if c['si'] == u:
            c['si'], c['ei'] = (u + 'i', c['ei']/t) if c['ei'] < t - 1e-9 else (u + 'o', max(0.0, (c['ei'] - t)/(1 - t)))
        if c['so'] == u:
            c['so'], c['eo'] = (u + 'i', min(1.0, c['eo']/t)) if c['eo'] < t + 1e-9 else (u + 'o', (c['eo'] - t)/(1 - t))
        ctrls.append(c)
    return dict(w, segs=w['segs'][:k] + parts + w['segs'][k + 1:], ctrls=ctrls)


def split_control(w, i, t):
    c = w['ctrls'][i]
    return dict(w, ctrls=w['ctrls'][:i] + [dict(c, eo=t), dict(c, uid=c['uid'] + '2', ei=t)] + w['ctrls'][i + 1:])


def renamed(spec, k):
    s = copy.deepcopy(spec)
    f = [lambda u, i: 'Ω ' + u[::-1], lambda u, i: f'{9 - i}', lambda u, i: ('_' if i % 2 else '') + u.upper() + '_m'][k]
    for i, w in enumerate(s['wings']):
        w['uid'] = f(w['uid'], i)
        m = {g['uid']: f(g['uid'], j) for j, g in enumerate(w['segs'])}
        for g in w['segs']:
            g['uid'] = m[g['uid']]
        for j, c in enumerate(w['ctrls']):
            c['uid'] = f(c['uid'], j)
            c['si'], c['so'] = m[c['si']], m[c['so']]
    s['uid'] = 'another name'
    return s


def variants(spec):
    W = spec['wings']
    for o in itertools.permutations(range(len(W))):
        if list(o) != list(range(len(W))):
            yield f'wings in order {o}', dict(spec, wings=[W[i] for i in o])
    for i, w in enumerate(W):
        put = lambda *n: dict(spec, wings=W[:i] + list(n) + W[i + 1:])
        for o in itertools.permutations(range(len(w['ctrls']))):
            if list(o) != list(range(len(w['ctrls']))):
                yield f'controls of {w["uid"]} in order {o}', put(dict(w, ctrls=[w['ctrls'][j] for j in o]))
        if len(w['segs']) > 1 and all(c['si'] == c['so'] for c in w['ctrls']):
            yield f'segments of {w["uid"]} reversed', put(dict(w, segs=w['segs'][::-1]))
        if w['sym']:
            h = halves(w)
            if h:
                yield f'halves of {w["uid"]}', put(*h)
                yield f'halves of {w["uid"]} exchanged', put(*h[::-1])
        for k, s in enumerate(w['segs']):
            if s['af'][0] == s['af'][1]:
                for j in range(1, s['ns']):
                    n = split_segment(w, k, j)
                    if n:
                        yield f'{w["uid"]}/{s["uid"]} split at line {j}', put(n)
        for k, c in enumerate(w['ctrls']):
            if c['si'] == c['so'] and c['xi'] == c['xo'] and c['hi'] == c['ho']:
                n = [s for s in w['segs'] if s['uid'] == c['si']][0]['ns']
                for j in range(1, n):
                    if c['ei'] + 0.02 < j/n < c['eo'] - 0.02:
                        yield f'control {c["uid"]} of {w["uid"]} split at line {j}', put(split_control(w, k, j/n))
    for k in range(3):
        yield f'renamed ({k})', renamed(spec, k)


def shuffle(x, k):
    """the same json value with the entries of all objects in another order, whole numbers with or without decimal point"""
    if isinstance(x, dict):
        items = [(a, shuffle(b, k)) for a, b in x.items()]
        return dict(items[::-1] if k == 0 else items[1:] + items[:1])
    if isinstance(x, list):
        return [shuffle(y, k) for y in x]
    return x


def from_file(spec, states, k):
    d = proj.fresh_dir('c24')
    try:
        a, s = proj.aircraft_dict(spec), proj.state_dict([states])
        f = proj.write_project(d, shuffle(a, k), shuffle(s, k), {})
        st = P.io.native.settings.load(f)
        ac = P.io.native.aircraft.load(st)
        fs = P.io.native.state.load(st)
        cs = next(iter(pt.cur_states(ac, fs)))
        return pt.solve(ac, cs, st)
    finally:
        proj.rmtree(d)


def run_case(case):
    spec = {'wings': case['wings'], 'refs': case['refs']}
    _, _, lat, vd = pt.run_spec(spec, case['state'])
    F, C = pt.loads(vd)
    d = dict(pt.STATE, **case['state'])
    qS = 0.5*d['density']*d['airspeed']**2*case['refs']['area']

    def same(what, lat2, vd2):
        F2, C2 = pt.loads(vd2)
        require(len(lat2.p) == len(lat.p), 'panels', f'{what}: {len(lat2.p)} instead of {len(lat.p)} panels')
        for nm, sl, ref in (('force', slice(0, 6), 1.0), ('moment', slice(6, 9), 5.0)):
            close(nm, F2[sl], F[sl], rtol=1e-8, atol=1e-10*qS*ref, scale=ref*np.max(np.abs(F[:6])), what=f'{what}: {nm}s {pt.FKEYS[sl]}')
        close('coefficient', C2, C, rtol=5e-8, atol=1e-9, what=f'{what}: coefficients {pt.FKEYS}')
    n = 0
    for what, s2 in variants(spec):
        _, _, lat2, vd2 = pt.run_spec(s2, case['state'])
        same(what, lat2, vd2)
        n += 1
    for k in range(2):
        try:
            lat2, vd2 = from_file(spec, case['state'], k)
        except Exception as e:
            import traceback
            raise explore.Fail('file', f'entries permuted ({k}): {traceback.format_exc()[-900:]}')
        same(f'file entries permuted ({k})', lat2, vd2)
        n += 1
    return [round(float(x), 6) for x in C], {'descriptions_compared': n}
