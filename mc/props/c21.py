"""C21: panel counts are honoured when given, derived by the documented rule otherwise."""
import math

import numpy as np

from mc import pt, gen, explore
from mc.pt import P, require
from mc.explore import Prune

LEVEL = 'exploration'
RULE = ('every aircraft (segments and their span shares, symmetry, controls, a second wing) x counts given or left open for every segment and control x global settings within `bound` departures of the default; '
        'panels counted in the generated mesh itself, by their position on the segment. Distinct by counts.')
ASSUMPTIONS = ['a span share within 1e-9 of a whole number of panels may be rounded to either side',
               'a segment strip shared with a control surface has at least one and at most the given number of panels on its fixed part (the division there: C02)']
prepare = lambda ctx: pt.load()


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3, 'global_settings': '1..7 and default', 'dense': list(DENSE)}


QS = ('rect', 'swept', 'dihedral', 'fin')


def one_wing(ch, uid, off, full=True):
    n = ch.pick(uid + '.nseg', (1, 2, 3))
    sym = ch.pick(uid + '.sym', (2, 0, 1, 3))
    qn = ch.pick(uid + '.quad', QS)
    if qn == 'fin' and sym == 2:
        raise Prune()
    q = gen.quad(qn, off)
    if sym == 1:
        q = [(x, y, z + 0.4) for x, y, z in q]
    elif sym == 3:
        q = [(x + 0.5, y, z) for x, y, z in q]
    segs = []
    for i in range(n):
        nc = ch.pick(f'{uid}.s{i}.nc', (None, 1, 2, 3, 5))
        ns = ch.pick(f'{uid}.s{i}.ns', (None, 1, 2, 3, 5))
        if i:
            q = cont(q, ch.pick(f'{uid}.s{i}.cont', ('equal', 'straight', 'kink', 'up', 'tiny')))
        segs.append(pt.seg(f's{i}', *q, nc=nc, ns=ns))
    ctrls = []
    for k, lay in enumerate(ch.pick(uid + '.ctrl', ((), ('f',), ('l',), ('f', 'l'), ('full',), ('x',)))):
        last = f's{n - 1}'
        cn = ch.pick(f'{uid}.c{k}.nc', (None, 1, 2, 3, 5))
        ctrls.append({'f': pt.ctrl('f', 'flap', 's0', 's0', 0.2, 0.55, 0.7, 0.7), 'l': pt.ctrl('l', 'slat', 's0', 's0', 0.4, 0.9, 0.2, 0.2),
                      'full': pt.ctrl('g', 'flap', last, last, 0.0, 1.0, 0.6, 0.6), 'x': pt.ctrl('x', 'flap', 's0', last, 0.45, 0.7, 0.75, 0.75)}[lay])
        ctrls[-1]['nc'] = cn
    return pt.wing(uid, sym, segs, ctrls)


def cont(q, kind):
    if kind == 'equal':
        b, c = q[1], q[2]
        d = [y - x for x, y in zip(q[0], q[1])]
        return [tuple(b), tuple(x + y for x, y in zip(b, d)), tuple(x + y for x, y in zip(c, d)), tuple(c)]
    if kind == 'tiny':
        b, c = q[1], q[2]
        return [tuple(b), (b[0], b[1] + 0.05, b[2]), (c[0], c[1] + 0.05, c[2]), tuple(c)]
    return gen.next_quad(q, kind)


def driver(ch):
    wings = [one_wing(ch, 'w', (0, 0, 0))]
    if ch.pick('second', (0, 1)):
        wings.append(one_wing(ch, 'v', (5, 0.1, 1.0)))
    s = {}
    c = ch.pick('auto_c', (None, 1, 2, 3, 5, 6, 7))
    k = ch.pick('auto_s', (None, 1, 2, 3, 5, 6, 7, 12))
    if c:
        s['vlm_autopanels_c'] = c
    if k:
        s['vlm_autopanels_s'] = k
    return {'wings': wings, 'settings': s}


def dense(ch):
    """Fine meshes: one or two segments without controls, one of them with many strips or panels per strip"""
    qn = ch.pick('quad', QS)
    q = gen.quad(qn)
    n = ch.pick('ns', DENSE)
    how = ch.pick('how', ('given', 'global', 'chord', 'global chord', 'second', 'share', 'control', 'given coarse'))
    s = {}
    sym = ch.pick('sym', (0, 2) if qn != 'fin' else (0,))
    segs = [pt.seg('s0', *q, nc=1, ns=n if how in ('given', 'control') else None)]
    ctrls = []
    if how == 'global' or how == 'share':
        s['vlm_autopanels_s'] = n
    elif 'chord' in how:
        segs[0].update(ns=1, nc=n if how == 'chord' else None)
        s['vlm_autopanels_c'] = n if how == 'global chord' else 2
    if how == 'given coarse':
        # few panels given explicitly beside fine global settings
        s.update(vlm_autopanels_c=n, vlm_autopanels_s=n)
        a, b = ch.pick('few', ((1, 1), (2, 1), (1, 3), (3, 2)))
        segs[0].update(nc=a, ns=b)
        if ch.pick('few.ctrl', (0, 1)):
            ctrls = [pt.ctrl('f', 'flap', 's0', 's0', 0.2, 0.55, 0.7, 0.7, nc=b)]
    if how in ('second', 'share', 'control'):
        segs.append(pt.seg('s1', *cont(q, ch.pick('cont', ('equal', 'kink'))), nc=1, ns=n if how == 'second' else None))
    if how == 'control':
        ctrls = [pt.ctrl('f', 'flap', 's1', 's1', 0.2, 0.55, 0.7, 0.7)]
    return {'wings': [pt.wing('w', sym, segs, ctrls)], 'settings': s}


DENSE = (20, 49, 50, 51, 64, 75, 99, 100, 101, 128, 150, 200, 333)


def cases(ctx):
    a, n, c = explore.enumerate_cases(driver, bound=bounds(ctx)['deviations'])
    b, m, d = explore.enumerate_cases(dense, bound=5 if ctx.thorough else 3)
    return a + [((100,) + s, x) for s, x in b], n + m, c or d


def span(s):
    a, b = np.array(s['v']['a']), np.array(s['v']['b'])
    return math.hypot(*(b - a)[1:])


def run_case(case):
    ac = pt.make_aircraft({'wings': case['wings']})
    lat = pt.lattice_for(ac, pt.one_state(ac, {}), pt.make_settings(case['settings']))
    again = pt.lattice_for(ac, pt.one_state(ac, {}), pt.make_settings(case['settings']), fresh=False)
    require(again.p.shape == lat.p.shape, 'again', f'{again.p.shape} after {lat.p.shape}')
    gc, gs = case['settings'].get('vlm_autopanels_c', 4), case['settings'].get('vlm_autopanels_s', 4)
    sig, seen = [], 0
    for w in case['wings']:
        total = sum(span(s) for s in w['segs'])
        for m in (False, True) if w['sym'] else (False,):
            idx = [i for e in pt.entries_of(lat, w['uid'], m) for i in e.pan_idx]
            seen += len(idx)
            p = lat.p[idx]
            p = pt.mirror(p, w['sym']) if m else p
            mid = p.mean(1)
            # the segment on which each panel lies
            best, own = np.full(len(p), np.inf), np.zeros(len(p), int)
            E, X = np.zeros((len(p), 4)), np.zeros((len(p), 4))
            for k, s in enumerate(w['segs']):
                e, x, r = pt.inv_bil(s['v'], mid)
                r = np.where(np.isfinite(r), r, np.inf) + 1e3*(np.maximum(0, -e) + np.maximum(0, e - 1) + np.maximum(0, -x) + np.maximum(0, x - 1))
                b = r < best
                best[b], own[b] = r[b], k
                ee, xx, _ = pt.inv_bil(s['v'], p.reshape(-1, 3))
                E[b], X[b] = ee.reshape(-1, 4)[b], xx.reshape(-1, 4)[b]
            for k, s in enumerate(w['segs']):
                j = np.where(own == k)[0]
                what = f'wing {w["uid"]} {"mirrored" if m else "own"} side, segment {s["uid"]}, settings {case["settings"]}'
                require(len(j), 'no-panels', what)
                lo, hi = E[j].min(1), E[j].max(1)
                strips = sorted({(round(a, 6), round(b, 6)) for a, b in zip(lo, hi)})
                nc = [s['nc']] if s['nc'] else [gc]
                q = span(s)/total*gs
                ns = [s['ns']] if s['ns'] else sorted({math.ceil(q - 1e-9), math.ceil(q + 1e-9)})
                edges, cover = set(), []
                for c in w['ctrls']:
                    i0, i1 = (int(c[x][1:]) for x in ('si', 'so'))
                    if i0 <= k <= i1:
                        a, b = (c['ei'] if k == i0 else 0.0), (c['eo'] if k == i1 else 1.0)
                        edges |= {a, b} - {0.0, 1.0}
                        cover.append((a, b, c))
                want = {n: lines(n, edges) for n in ns}
                require(len(strips) in want.values(), 'spanwise', lambda: f'{what}: {len(strips)} strips instead of {sorted(want.values())} ({strips})')
                for a, b in strips:
                    t = j[(np.abs(lo - a) < 1e-5) & (np.abs(hi - b) < 1e-5)]
                    xm = X[t].mean(1)
                    rest = len(t)
                    here = [c for x, y, c in cover if x - 1e-6 < (a + b)/2 < y + 1e-6]
                    for c in here:
                        n = int(np.sum(xm > c['xi'])) if c['kind'] == 'flap' else int(np.sum(xm < c['xi']))
                        rest -= n
                        require(n == (c['nc'] or gc), 'control', f'{what}: control {c["uid"]} has {n} panels in strip {a:.3f}..{b:.3f}')
                    if here:
                        require(1 <= rest <= nc[0], 'fixed-part', f'{what}: {rest} panels besides {[c["uid"] for c in here]}, segment has {nc[0]}')
                    else:
                        require(rest in nc, 'chordwise', f'{what}: {rest} panels in strip {a:.3f}..{b:.3f} instead of {nc}')
                sig.append([len(strips), len(j)])
    require(seen == len(lat.p), 'others', f'{len(lat.p)} panels, {seen} on wings')
    return sig


def lines(n, edges):
    """number of strips between the lines k/n and the edges of the controls"""
    x = {round(k/n, 9) for k in range(n + 1)} | {round(e, 9) for e in edges}
    return len(x) - 1
