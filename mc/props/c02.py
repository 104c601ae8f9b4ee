"""C02: control surfaces occupy exactly their declared planform."""
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close, ctrl, seg, wing
from mc.props.c01 import segment_cells, strips, chain, TOL, check_tiling

LEVEL = 'exploration'
RULE = ('Every placement of one or two control surfaces: edges on an eta grid (including segment borders, edges shared between controls and edges that coincide with '
        'uniform divisions), chord lines on an xsi grid, device type, single- and multi-segment, both declaration orders, planform, symmetry, uniform divisions. '
        'Placements in which two devices overlap must be refused. Distinct by resulting (strip, chord line) layout.')
ASSUMPTIONS = ['chord lines within a flat segment are straight between inner and outer edge; over several segments they are interpolated by distance along the control',
               'division lines closer than 1 % of the segment span may snap']
prepare = lambda ctx: pt.load()
SNAP = 0.0100001


def bounds(ctx):
    return {'part A (one control)': 'deviations<=3' if not ctx.thorough else 'deviations<=4',
            'part B (two controls)': 'deviations<=2' if not ctx.thorough else 'deviations<=3', 'part F (three controls)': 'full product on an eta grid', 'part G (narrow gaps)': 'deviations<=4' if not ctx.thorough else 'full product'}


def base(ch, nseg):
    qn = ch.pick('quad', ['rect', 'tapered', 'swept', 'dihedral', 'fin', 'twisted'])
    sym = ch.pick('sym', (2, 0, 1, 3))
    q = gen.quad(qn, (0.5, 0, 0.4))
    segs = []
    for i in range(nseg):
        ns = ch.pick(f'ns{i}', (1, 4, 10, 3))
        if i:
            q = gen.next_quad(q, ch.pick('cont', ('straight', 'kink', 'up')))
        segs.append(seg(f's{i}', *q, nc=ch.pick(f'nc{i}', (2, 4)), ns=ns))
    return sym, segs, qn


ETA_I = (0.2, 0.0, 0.3, 0.5, 0.25, 0.004)
ETA_O = (0.7, 1.0, 0.5, 0.75, 0.6, 0.996)


def pick_ctrl(ch, uid, n):
    si = ch.pick(uid + '.si', list(range(n)))
    so = ch.pick(uid + '.so', list(range(si, n)))
    ei = ch.pick(uid + '.ei', ETA_I)
    eo = ch.pick(uid + '.eo', ETA_O)
    if si == so and eo <= ei:
        raise explore.Prune()
    kind = ch.pick(uid + '.kind', ('flap', 'slat'))
    xi = ch.pick(uid + '.xi', (0.7, 0.75) if kind == 'flap' else (0.2, 0.25))
    xo = ch.pick(uid + '.xo', (0, 0.08, -0.1)) + xi
    h = ch.pick(uid + '.hinge', (0.0, 0.05))
    return ctrl(uid, kind, f's{si}', f's{so}', ei, eo, xi, xo, xi + h, xo + h, nc=ch.pick(uid + '.nc', (1, 3)))


def drv_a(ch):
    n = ch.pick('n', (1, 2, 3, 4))
    sym, segs, qn = base(ch, n)
    return {'wings': [wing('w', sym, segs, [pick_ctrl(ch, 'c0', n)])]}


def drv_b(ch):
    n = ch.pick('n', (1, 2))
    sym, segs, qn = base(ch, n)
    c = [pick_ctrl(ch, 'c0', n), pick_ctrl(ch, 'c1', n)]
    if ch.pick('order', (0, 1)):
        c.reverse()
    return {'wings': [wing('w', sym, segs, c)]}


def drv_c(ch):
    """Dense edge placement: narrow controls and edges close to existing lines"""
    ei = ch.pick('ei', (0.3, 0.5, 0.495, 0.505, 0.0, 0.1, 0.2, 0.4))
    w = ch.pick('w', (0.2, 0.005, 0.009, 0.011, 0.02, 0.195, 0.205, 0.4))
    ns = ch.pick('ns', (1, 2, 5, 10, 20, 35))
    kind = ch.pick('kind', ('flap', 'slat'))
    x = 0.7 if kind == 'flap' else 0.25
    return {'wings': [wing('w', ch.pick('sym', (0, 2)), [seg('s0', *gen.quad('tapered'), nc=2, ns=ns)],
                           [ctrl('c0', kind, 's0', 's0', ei, ei + w, x, x)])], 'near': True}


def drv_d(ch):
    """Multi-segment controls that end just past a border or start just before it"""
    q = gen.quad('tapered')
    q2 = gen.next_quad(q, ch.pick('cont', ('straight', 'kink')))
    segs = [seg('s0', *q, nc=2, ns=ch.pick('ns', (1, 4))), seg('s1', *q2, nc=2, ns=ch.pick('ns1', (1, 5)))]
    ei, eo = ch.pick('e', [(i, o) for i in (0.5, 0.995, 0.985, 1.0) for o in (0.5, 0.005, 0.015, 0.0) if (i, o) != (1.0, 0.0)])
    return {'wings': [wing('w', ch.pick('sym', (0, 2)), segs,
                           [ctrl('c0', ch.pick('kind', ('flap', 'slat')), 's0', 's1', ei, eo, 0.5, 0.5 + ch.pick('taper', (0.0, 0.1)))])],
            'near': True}


def drv_e(ch):
    """A second device whose edges nearly coincide with those of the first"""
    q = gen.quad(ch.pick('quad', ('tapered', 'rect')))
    e = ch.pick('e', (0.3, 0.5))
    k = ch.pick('k', ('flap', 'slat'))
    x = {'flap': 0.7, 'slat': 0.2}
    side = ch.pick('side', ('inner', 'outer', 'in-out'))
    d = ch.pick('d', (0.0, 5e-17, -6e-17, 0.005, -0.005, 0.009, 0.011, -0.011))
    c0 = ctrl('c0', 'flap', 's0', 's0', 0.1, e, 0.7, 0.7) if side != 'inner' else ctrl('c0', 'flap', 's0', 's0', e, 0.9, 0.7, 0.7)
    if side == 'outer':
        c1 = ctrl('c1', k, 's0', 's0', e + d, 0.8, x[k], x[k])
    elif side == 'inner':
        c1 = ctrl('c1', k, 's0', 's0', 0.2, e + d, x[k], x[k])
    else:
        c1 = ctrl('c1', k, 's0', 's0', 0.15, e + d, x[k], x[k])
        if k == 'flap':
            raise explore.Prune()
    cs = [c0, c1]
    if ch.pick('order', (0, 1)):
        cs.reverse()
    return {'wings': [wing('w', ch.pick('sym', (0, 2)), [seg('s0', *q, nc=2, ns=ch.pick('ns', (1, 4, 10)))], cs)], 'near': True}


def drv_g(ch):
    """A wide device declared before, between or after others that leave narrow (but not snapping) gaps between their edges"""
    kind = ch.pick('kind', ('flap', 'slat'))
    other = 'slat' if kind == 'flap' else 'flap'
    x = {'flap': 0.7, 'slat': 0.2}
    e, d, d2 = ch.pick('e', (0.5, 0.32)), ch.pick('d', (0.015, 0.0105, 0.02, 0.03)), ch.pick('d2', (None, 0.012, 0.2))
    cs = [ctrl('c0', other, 's0', 's0', e, e + d, x[other], x[other])]
    if d2:
        cs.append(ctrl('c1', other, 's0', 's0', e + d, e + d + d2, x[other], x[other]))
    cs.insert(ch.pick('pos', range(len(cs) + 1)), ctrl('w', kind, 's0', 's0', ch.pick('wi', (0.2, 0.0)), ch.pick('wo', (0.8, 1.0)), x[kind], x[kind] + ch.pick('taper', (0.0, 0.1))))
    if ch.pick('rev', (0, 1)):
        cs.reverse()
    return {'wings': [wing('w', ch.pick('sym', (0, 2)), [seg('s0', *gen.quad('tapered'), nc=2, ns=ch.pick('ns', (1, 4, 35)))], cs)], 'near': True}


def make_drv_f(grid):
    """One tapered device against one or two devices of the other kind, all edge combinations on a grid, all orders"""
    pairs = [(a, b) for i, a in enumerate(grid) for b in grid[i + 1:]]

    def drv(ch):
        long_kind = ch.pick('kind', ('flap', 'slat'))
        other = 'slat' if long_kind == 'flap' else 'flap'
        x = {'flap': 0.6, 'slat': 0.15}
        ei, eo = ch.pick('long', pairs)
        c = [ctrl('c0', long_kind, 's0', 's0', ei, eo, x[long_kind], x[long_kind] + 0.15, x[long_kind] + 0.05, x[long_kind] + 0.1)]
        p = ch.pick('p1', pairs)
        c.append(ctrl('c1', other, 's0', 's0', *p, x[other], x[other] + 0.1))
        q = ch.pick('p2', [None] + [r for r in pairs if r[0] >= p[1]])
        if q:
            c.append(ctrl('c2', other, 's0', 's0', *q, x[other] + 0.05, x[other]))
        pos = ch.pick('pos', list(range(len(c))))
        c.insert(pos, c.pop(0))
        return {'wings': [wing('w', ch.pick('sym', (0, 2)), [seg('s0', *gen.quad('tapered'), nc=2, ns=ch.pick('ns', (1, 6)))], c)]}
    return drv


def drv_shipped(ch):
    n, u = ch.pick('wing', [(n, w['uid']) for n in gen.SHIPPED for w in gen.shipped(n)['wings'] if w['ctrls']])
    nc, ns = ch.pick('counts', ((1, 1), (2, 1), (1, 3), (1, 10)))
    w = gen.shipped(n, nc, ns, only=u, snap=False)['wings'][0]
    o = ch.pick('order', ('given', 'reversed'))
    if o == 'reversed' and len(w['ctrls']) < 2:
        raise explore.Prune()
    return {'wings': [dict(w, ctrls=w['ctrls'][::-1] if o == 'reversed' else w['ctrls'])], 'near': True}


def cases(ctx):
    da, db = (4, 3) if ctx.thorough else (3, 2)
    out, nodes, capped = [], 0, False
    for drv, b in ((drv_a, da), (drv_b, db), (drv_c, None), (drv_d, None), (drv_e, None), (drv_g, None if ctx.thorough else 4), (drv_shipped, None),
                   (make_drv_f((0.0, 0.15, 0.3, 0.5, 0.75, 0.9, 1.0) if ctx.thorough else (0.0, 0.2, 0.45, 0.7, 1.0)), None)):
        c, n, cap = explore.enumerate_cases(drv, bound=b)
        out += c
        nodes += n
        capped |= cap
    return out, nodes, capped


# ------------------------------------------------------------------ reference

def spans(w, c):
    """[(segment uid, eta_i, eta_o)] in root-to-tip order"""
    uids = [s['uid'] for s in w['segs']]
    i, o = uids.index(c['si']), uids.index(c['so'])
    out = []
    for k in range(i, o + 1):
        out.append((uids[k], c['ei'] if k == i else 0.0, c['eo'] if k == o else 1.0))
    return [x for x in out if x[2] > x[1]]


def overlapping(w):
    cs = w['ctrls']
    for a in range(len(cs)):
        for b in range(a + 1, len(cs)):
            for sa, a0, a1 in spans(w, cs[a]):
                for sb, b0, b1 in spans(w, cs[b]):
                    if sa == sb and min(a1, b1) - max(a0, b0) > SNAP and cs[a]['kind'] == cs[b]['kind']:
                        return True
                    if sa == sb and 1e-9 < min(a1, b1) - max(a0, b0) <= SNAP and cs[a]['kind'] == cs[b]['kind']:
                        return None
    return False


def line_xsi(v, pin, pout, eta):
    """xsi where the straight line pin-pout crosses the chord line at eta (flat segment)"""
    top, bot = pt.bil(v, np.array([eta]), np.array([0.0]))[0], pt.bil(v, np.array([eta]), np.array([1.0]))[0]
    A = np.stack([bot - top, -(pout - pin)], axis=1)
    sol, *_ = np.linalg.lstsq(A, pin - top, rcond=None)
    return float(sol[0])


def flat(v):
    a, b, c, d = (np.array(v[k]) for k in 'abcd')
    n = np.cross(c - a, d - b)
    return abs(np.dot(b - a, n))/np.linalg.norm(n) < 1e-9


def boundary(w, c):
    """segment uid -> (eta_i, eta_o, f) with f(eta) -> (lo, hi) allowed xsi of the chord line"""
    sp = spans(w, c)
    vs = {s['uid']: s['v'] for s in w['segs']}
    if len(sp) == 1:
        uid, e0, e1 = sp[0]
        marks = [(uid, e0, e1, (c['xi'], c['xi']), (c['xo'], c['xo']))]
    else:
        # distance along the control, lower/upper estimate over the possible chord positions
        lens = []
        for uid, e0, e1 in sp:
            L = [np.linalg.norm(pt.bil(vs[uid], np.array([e1]), np.array([x1]))[0] - pt.bil(vs[uid], np.array([e0]), np.array([x0]))[0])
                 for x0 in (c['xi'], c['xo']) for x1 in (c['xi'], c['xo'])]
            lens.append((min(L), max(L)))
        marks = []
        for k, (uid, e0, e1) in enumerate(sp):
            def frac(m):
                lo = sum(l[0] for l in lens[:m])/(sum(l[0] for l in lens[:m]) + sum(l[1] for l in lens[m:]))
                hi = sum(l[1] for l in lens[:m])/(sum(l[1] for l in lens[:m]) + sum(l[0] for l in lens[m:]))
                xs = [c['xi'] + (c['xo'] - c['xi'])*t for t in (lo, hi)]
                return (min(xs), max(xs))
            marks.append((uid, e0, e1, frac(k), frac(k + 1)))
    out = {}
    for uid, e0, e1, x0, x1 in marks:
        v = vs[uid]

        def f(eta, v=v, e0=e0, e1=e1, x0=x0, x1=x1):
            if abs(x0[0] - x1[0]) < 1e-12 and abs(x0[1] - x1[1]) < 1e-12 and x0[0] == x0[1]:
                return x0[0], x0[0]
            r = []
            for a in x0:
                for b in x1:
                    if flat(v):
                        r.append(line_xsi(v, pt.bil(v, np.array([e0]), np.array([a]))[0], pt.bil(v, np.array([e1]), np.array([b]))[0], eta))
                    else:
                        r.append(a + (b - a)*(eta - e0)/(e1 - e0) - 0.02)
                        r.append(a + (b - a)*(eta - e0)/(e1 - e0) + 0.02)
            return min(r), max(r)
        out[uid] = (e0, e1, f)
    return out


def run_case(case):
    w = case['wings'][0]
    ov = overlapping(w)
    try:
        ac = pt.make_aircraft({'wings': case['wings']})
        st = pt.one_state(ac, {})
        lat = pt.lattice_for(ac, st, pt.make_settings({'_do_normal_rotations': False}))
    except ValueError as e:
        if ov is False:
            raise pt.Fail('valid-layout-refused', repr(e))
        return 'refused'
    require(ov is not True, 'overlap-accepted', 'two devices of one kind overlap but were accepted')
    if ov is None:
        return 'snapped overlap'
    check_tiling({'wings': case['wings']}, ac, lat)
    out = []

    def tol_at(c, uid, e):
        """Edge tolerance: 1 % where another line lies within 1 %"""
        s = next(x for x in w['segs'] if x['uid'] == uid)
        lines = [0.0, 1.0] + list(np.linspace(0, 1, s['ns'] + 1))
        for o in w['ctrls']:
            for u, a, b in spans(w, o):
                if u == uid:
                    lines += [a, b]
        return SNAP if any(1e-12 < abs(l - e) <= SNAP for l in lines) else 1e-6
    for mir in ((False, True) if w['sym'] else (False,)):
        ents = pt.entries_of(lat, w['uid'], mir)
        bnds = {}
        for c in w['ctrls']:
            b = boundary(w, c)
            bnds[c['uid']] = b
            mine = [e for e in ents if e.subarea.parent_control is not None and e.subarea.parent_control.uid == c['uid']]
            segs_used = {e.subarea.parent_segment.uid for e in mine}
            for s in w['segs']:
                cells = {}
                idx = [i for e in mine if e.subarea.parent_segment.uid == s['uid'] for i in e.pan_idx]
                if s['uid'] not in b:
                    require(not idx, 'control-on-wrong-segment', f"{c['uid']} has panels on {s['uid']}")
                    continue
                e0, e1, f = b[s['uid']]
                if not idx:
                    require(e1 - e0 < SNAP, 'control-missing', f"{c['uid']} has no panels on {s['uid']} ({e0}..{e1})")
                    continue
                cl = segment_cells(lat.p[idx], s['v'], w['sym'], mir)
                ss = strips(cl)
                ks = sorted(ss)
                require(abs(ks[0][0] - e0) < tol_at(c, s['uid'], e0), 'control-inner-edge', f"{c['uid']} on {s['uid']} starts at {ks[0][0]}, declared {e0}")
                require(abs(ks[-1][1] - e1) < tol_at(c, s['uid'], e1), 'control-outer-edge', f"{c['uid']} on {s['uid']} ends at {ks[-1][1]}, declared {e1}")
                for a, bb in zip(ks, ks[1:]):
                    require(abs(a[1] - bb[0]) < TOL, 'control-gap', f"{c['uid']}: strips {a} {bb}")
                for k, cs in ss.items():
                    for side, (fr, re) in ((k[0], (2, 3)), (k[1], (4, 5))):
                        iv = sorted((x[fr], x[re]) for x in cs)
                        for a, bb in zip(iv, iv[1:]):
                            require(abs(a[1] - bb[0]) < TOL, 'control-chord-gap', f'{iv}')
                        # equal chordwise spacing inside the control
                        dd = [y - x for x, y in iv]
                        require(max(dd) - min(dd) < 1e-6, 'control-chord-spacing', f'{iv}')
                        ce = min(max(side, e0), e1)
                        lo, hi = f(ce)
                        lo, hi = lo - 1e-6, hi + 1e-6
                        line = iv[0][0] if c['kind'] == 'flap' else iv[-1][1]
                        far = iv[-1][1] if c['kind'] == 'flap' else iv[0][0]
                        require(abs(far - (1.0 if c['kind'] == 'flap' else 0.0)) < TOL, 'control-edge', f'free edge at {far}')
                        slack = 0.01*abs(c['xi'] - c['xo'])/(e1 - e0) if max(tol_at(c, s['uid'], e0), tol_at(c, s['uid'], e1)) > 1e-5 else 0.0
                        require(lo - slack <= line <= hi + slack, 'control-chord-line', f"{c['uid']} at eta={side}: xsi {line}, declared {lo}..{hi}")
                    require(len(cs) == c['nc'], 'control-panel-count', f"{len(cs)} != {c['nc']}")
                    out.append((mir, c['uid'], s['uid'], k, round(float(cs[0][2]), 4), round(float(cs[0][4]), 4)))
            # continuity of the chord line across segment borders
            order = [u for u, _, _ in spans(w, c)]
            for u0, u1 in zip(order, order[1:]):
                def edge(u, outer):
                    s = next(x for x in w['segs'] if x['uid'] == u)
                    idx = [i for e in mine if e.subarea.parent_segment.uid == u for i in e.pan_idx]
                    if not idx:
                        return None
                    cl = segment_cells(lat.p[idx], s['v'], w['sym'], mir)
                    k = max(cl[:, 1]) if outer else min(cl[:, 0])
                    rows = [r for r in cl if abs((r[1] if outer else r[0]) - k) < TOL]
                    a, z = (4, 5) if outer else (2, 3)
                    return min(r[a] for r in rows) if c['kind'] == 'flap' else max(r[z] for r in rows)
                ea, eb = edge(u0, True), edge(u1, False)
                if ea is not None and eb is not None:
                    require(abs(ea - eb) < 1e-6, 'control-kink', f"{c['uid']} jumps from {ea} to {eb} between {u0} and {u1}")
        known = set(bnds)
        for e in ents:
            pc = e.subarea.parent_control
            require(pc is None or pc.uid in known, 'unknown-control', '')
    return out, {'panels': len(lat.p)}
