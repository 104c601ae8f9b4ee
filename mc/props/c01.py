"""C01: the mesh tiles every segment exactly once on both sides."""
import numpy as np
from mc import pt, gen, explore
from mc.pt import P, require, close

LEVEL = 'exploration'
RULE = ('The aircraft shipped in the database with uniform panel counts within their own departure bound, and: '
        'Every aircraft reachable from the default aircraft by at most `bound` departures in the choice tree (planform, symmetry, '
        'number of segments, continuation, panel counts, control layout and declaration order, second wing); a case counts as distinct '
        'when its set of (wing, side, segment, strip, part) panel intervals differs from all others.')
ASSUMPTIONS = ['segments are non-degenerate quadrilaterals', 'control edges are either equal to or at least 1 % of the span away from other division lines']
prepare = lambda ctx: pt.load()


def bounds(ctx):
    return {'deviations': 4 if ctx.thorough else 3, 'wings': 2, 'segments': 3, 'controls_per_wing': 2}


def driver(ch):
    wings = [gen.pick_wing(ch, 'w')]
    if ch.pick('second', (0, 1)):
        wings.append(gen.pick_wing(ch, 'v', off=(5.0, 0.2, 0.5), quads=['tapered', 'fin', 'twisted'], nsegs=(1, 2), ncs=(1, 2), nss=(1, 3),
                                   conts=('straight',)))
    return {'wings': wings, 'mach0': ch.pick('alpha', (3.0, -90.0))}


def shipped(ch):
    return {'wings': gen.pick_shipped(ch, counts=((1, 1), (3, 1), (1, 4), (2, 7)))['wings'], 'mach0': 3.0}


def cases(ctx):
    return gen.with_shipped(explore.enumerate_cases(driver, bound=bounds(ctx)['deviations']), shipped, bound=2 if ctx.thorough else 1)


TOL = 1e-7


def chain(intervals, what):
    """Intervals (already unique) must chain from 0 to 1"""
    intervals = sorted(intervals)
    require(abs(intervals[0][0]) < TOL, 'tiling-gap', f'{what}: starts at {intervals[0][0]}')
    require(abs(intervals[-1][1] - 1) < TOL, 'tiling-gap', f'{what}: ends at {intervals[-1][1]}')
    for (l0, l1), (r0, r1) in zip(intervals, intervals[1:]):
        require(abs(l1 - r0) < TOL, 'tiling-overlap-or-gap', f'{what}: {l0}..{l1} then {r0}..{r1}')
    for a, b in intervals:
        require(b - a > TOL, 'tiling-sliver', f'{what}: empty interval {a}..{b}')


def segment_cells(p, v, sym, mir):
    """Panels p (n,4,3) of one segment side -> list of (eta_in, eta_out, xf_in, xr_in, xf_out, xr_out)"""
    if mir:
        p = pt.mirror(p, sym)
        if sym == 2:    # P,Q,R,S = outer-front, inner-front, inner-rear, outer-rear
            p = p[:, [1, 0, 3, 2]]
        elif sym == 3:  # front and rear exchanged
            p = p[:, [3, 2, 1, 0]]
    eta, xsi, res = pt.inv_bil(v, p)
    require(np.max(res) < 1e-7, 'corner-off-surface', f'max distance {np.max(res)}')
    eta, xsi = eta.reshape(-1, 4), xsi.reshape(-1, 4)
    require(np.max(np.abs(eta[:, 0] - eta[:, 3])) < TOL and np.max(np.abs(eta[:, 1] - eta[:, 2])) < TOL, 'not-a-strip',
            'panel side edges do not follow constant span lines')
    # in the point of a triangle the chordwise position is not determined
    for side, (f, r), (f2, r2) in (('bc', (1, 2), (0, 3)), ('ad', (0, 3), (1, 2))):
        if np.allclose(v[side[0]], v[side[1]], rtol=0, atol=1e-12):
            at = np.abs(eta[:, f] - (side == 'bc')) < TOL
            xsi[at, f], xsi[at, r] = xsi[at, f2], xsi[at, r2]
    return np.stack([eta[:, 0], eta[:, 1], xsi[:, 0], xsi[:, 3], xsi[:, 1], xsi[:, 2]], axis=1)


def strips(cells):
    d = {}
    for c in cells:
        d.setdefault((round(c[0], 7), round(c[1], 7)), []).append(c)
    return d


def check_tiling(spec, ac, lat):
    out = []
    n = lat.p.shape[0]
    owner = np.zeros(n, dtype=int)
    nent = 0
    for e in lat.panel_bookkeeping:
        nent += 1
        for i in e.pan_idx:
            require(0 <= i < n, 'bookkeeping-range', f'index {i} of {n}')
            owner[i] += 1
        require(len(list(e.pan_idx)) == e.num_chordwise_panels, 'bookkeeping-count', '')
    require(np.all(owner == 1), 'bookkeeping-partition', f'panels owned {owner.tolist()}')
    seen = 0
    for w in spec['wings']:
        for mir in (False, True):
            ents = pt.entries_of(lat, w['uid'], mir)
            if mir and not w['sym']:
                require(not ents, 'mirror-without-symmetry', w['uid'])
                continue
            for e in ents:
                require(bool(e.mirror) == mir and e.subarea.parent_wing.uid == w['uid'], 'bookkeeping-side', '')
            for s in w['segs']:
                idx = [i for e in ents if e.subarea.parent_segment.uid == s['uid'] for i in e.pan_idx]
                seen += len(idx)
                require(idx, 'segment-without-panels', s['uid'])
                cells = segment_cells(lat.p[idx], s['v'], w['sym'], mir)
                require(np.all(cells[:, 1] - cells[:, 0] > 1e-6), 'panel-inverted', 'span direction')
                require(np.all(cells[:, 3] - cells[:, 2] > 1e-6) and np.all(cells[:, 5] - cells[:, 4] > 1e-6), 'panel-inverted', 'chord direction')
                st = strips(cells)
                chain(list(st), f"{w['uid']}/{s['uid']} mirror={mir} spanwise")
                for k, cs in st.items():
                    chain([(c[2], c[3]) for c in cs], f"{s['uid']} {k} inner edge")
                    chain([(c[4], c[5]) for c in cs], f"{s['uid']} {k} outer edge")
                    out.append((w['uid'], mir, s['uid'], k, sorted(tuple(np.round(c[2:], 5)) for c in cs)))
    require(seen == n, 'panels-unaccounted', f'{seen} of {n}')
    inf = lat.info
    require(inf['num_panels'] == n and inf['num_wings'] == len(spec['wings']) and
            inf['num_controls'] == sum(len(w['ctrls']) for w in spec['wings']), 'info-counts', str(inf))
    require(inf['num_strips'] == n, 'info-counts', f"strips {inf['num_strips']} panels {n}")
    for a in (lat.v, lat.c, lat.n, lat.a, lat.bound_leg_midpoints):
        require(a.shape[0] == n and np.all(np.isfinite(a)), 'arrays', 'size or value')
    return out


def run_case(case):
    spec = {'wings': case['wings']}
    ac = pt.make_aircraft(spec)
    st = pt.one_state(ac, {'alpha': case['mach0']})
    lat = pt.lattice_for(ac, st, pt.make_settings({'_do_normal_rotations': False}))
    out = check_tiling(spec, ac, lat)
    # A second lattice for the next flight state of the same aircraft must be the same mesh
    lat2 = pt.lattice_for(ac, pt.one_state(ac, {'alpha': -4.0, 'beta': 5.0}), pt.make_settings(), fresh=False)
    close('relattice', lat2.p, lat.p, atol=1e-12, what='corners on second generation')
    check_tiling(spec, ac, lat2)
    return str(out), {'panels': int(lat.p.shape[0])}
