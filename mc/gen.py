"""Finite alphabets shared by the drivers (plain data only)."""
from mc.explore import Prune
from mc.pt import seg, ctrl, wing

# Planforms: (root LE, root chord, tip LE, tip chord, tip twist dz) as quads
QUADS = {
    'rect':    [(0, 0, 0), (0, 2, 0), (1, 2, 0), (1, 0, 0)],
    'swept':   [(0, 0, 0), (1.1, 2, 0), (2.1, 2, 0), (1, 0, 0)],
    'tapered': [(0, 0, 0), (0.4, 2.5, 0), (1.0, 2.5, 0), (1.2, 0, 0)],
    'dihedral': [(0.2, 0.3, 0.1), (0.5, 2.2, 0.9), (1.2, 2.2, 0.9), (1.3, 0.3, 0.1)],
    'twisted': [(0, 0.1, 0), (0.3, 2.1, 0.2), (1.0, 2.1, 0.05), (1.1, 0.1, 0.15)],
    'fwd':     [(1.0, 0, 0.2), (0.3, 1.6, 0.2), (1.1, 1.6, 0.2), (2.2, 0, 0.2)],
    'fin':     [(2.0, 0, 0.2), (2.6, 0, 1.4), (3.2, 0, 1.4), (3.1, 0, 0.2)],
    'skew':    [(0.1, 0.4, 0.3), (0.9, 2.0, 0.3), (1.6, 2.3, 0.3), (1.2, 0.2, 0.3)],
    'pointed': [(0, 0.1, 0.1), (1.0, 1.9, 0.3), (1.0, 1.9, 0.3), (1.3, 0.1, 0.1)],     # triangle ending in a point
    'fromtip': [(0.2, 0.1, 0.2), (0.4, 1.8, 0.2), (1.5, 1.8, 0.4), (0.2, 0.1, 0.2)],   # starting from a point
}
MORE_QUADS = {
    'plate':   [(0, 0.1, 1.0), (0.2, 1.9, 1.1), (0.2, 1.9, 0.1), (0, 0.1, 0)],         # across the flow
}


def quad(name, off=(0, 0, 0), scale=1.0):
    return [tuple(scale*x + o for x, o in zip(p, off)) for p in {**QUADS, **MORE_QUADS}[name]]


def next_quad(prev, kind):
    """A segment continuing outboard of `prev` (shares prev's outer edge b-c)"""
    b, c = prev[1], prev[2]
    dx, dy, dz, taper = {'straight': (0.3, 1.5, 0.0, 0.8), 'kink': (0.9, 1.2, 0.5, 0.6),
                         'up': (0.5, 0.4, 1.1, 0.7)}[kind]
    ch = [ci - bi for ci, bi in zip(c, b)]
    b2 = (b[0] + dx, b[1] + dy, b[2] + dz)
    c2 = tuple(x + taper*h for x, h in zip(b2, ch))
    return [tuple(b), b2, c2, tuple(c)]


# ----------------------------------------------------------------------
# Control layouts: name -> function(list of segment uids) -> list of ctrl specs
# ----------------------------------------------------------------------

def _cl(fn):
    return fn


def layouts(n):
    """Control layouts available for a wing with n segments s0..s{n-1}"""
    L = {
        'none': [],
        'flap': [ctrl('f', 'flap', 's0', 's0', 0.2, 0.7, 0.7, 0.7)],
        'flapfull': [ctrl('f', 'flap', 's0', 's0', 0.0, 1.0, 0.75, 0.75, nc=2)],
        'flaptaper': [ctrl('f', 'flap', 's0', 's0', 0.1, 0.8, 0.6, 0.8, 0.65, 0.85, nc=2)],
        'slat': [ctrl('l', 'slat', 's0', 's0', 0.25, 1.0, 0.2, 0.2)],
        'both': [ctrl('l', 'slat', 's0', 's0', 0.1, 0.6, 0.16, 0.25, nc=2), ctrl('f', 'flap', 's0', 's0', 0.3, 0.9, 0.7, 0.7, nc=3)],
        'bothsame': [ctrl('f', 'flap', 's0', 's0', 0.25, 0.75, 0.7, 0.6), ctrl('l', 'slat', 's0', 's0', 0.25, 0.75, 0.2, 0.3)],
        'twoflaps': [ctrl('f2', 'flap', 's0', 's0', 0.6, 0.9, 0.8, 0.8, nc=2), ctrl('f1', 'flap', 's0', 's0', 0.1, 0.4, 0.7, 0.75)],
        'adjacent': [ctrl('f1', 'flap', 's0', 's0', 0.1, 0.5, 0.7, 0.7), ctrl('f2', 'flap', 's0', 's0', 0.5, 0.9, 0.7, 0.7)],
    }
    if n >= 2:
        L['span2'] = [ctrl('f', 'flap', 's0', 's1', 0.4, 0.5, 0.7, 0.7, nc=2)]
        L['span2slat'] = [ctrl('l', 'slat', 's0', 's1', 0.0, 1.0, 0.2, 0.2)]
        L['span2taper'] = [ctrl('f', 'flap', 's0', 's1', 0.3, 0.8, 0.6, 0.8, 0.7, 0.85)]
        L['border'] = [ctrl('f', 'flap', 's0', 's1', 0.5, 0.0, 0.65, 0.75), ctrl('l', 'slat', 's0', 's1', 1.0, 0.6, 0.2, 0.15, nc=2)]
        L['outer'] = [ctrl('f', 'flap', 's1', 's1', 0.2, 0.8, 0.7, 0.8), ctrl('l', 'slat', 's0', 's0', 0.0, 0.5, 0.2, 0.2)]
    if n >= 3:
        L['span3'] = [ctrl('f', 'flap', 's0', 's2', 0.5, 0.5, 0.75, 0.75), ctrl('l', 'slat', 's1', 's2', 0.25, 1.0, 0.1, 0.1, nc=2)]
        L['span3taper'] = [ctrl('f', 'flap', 's0', 's2', 0.25, 0.75, 0.6, 0.8, 0.6, 0.8)]
    return L


def pick_wing(ch, uid='w', off=(0, 0, 0), quads=None, syms=(2, 0, 1, 3), nsegs=(1, 2, 3), ncs=(2, 1, 3), nss=(2, 1, 3, 4),
              airfoils=(('NACA0000', 'NACA0000'),), lays=None, conts=('straight', 'kink', 'up')):
    """Choose one wing"""
    qn = ch.pick(uid + '.quad', quads or list(QUADS))
    sym = ch.pick(uid + '.sym', syms)
    if qn == 'fin' and sym == 2 and off[1] == 0:
        raise Prune()      # lies in its own mirror plane
    n = ch.pick(uid + '.nseg', nsegs)
    if qn == 'pointed' and n > 1:
        raise Prune()      # nothing to continue from
    q = quad(qn, off)
    if sym == 1:      # keep the wing off its mirror plane
        q = [(x, y, z + 0.4) for x, y, z in q]
    elif sym == 3:
        q = [(x + 0.5, y, z) for x, y, z in q]
    segs = []
    for i in range(n):
        af = ch.pick(f'{uid}.s{i}.af', airfoils)
        nc = ch.pick(f'{uid}.s{i}.nc', ncs)
        ns = ch.pick(f'{uid}.s{i}.ns', nss)
        if i:
            q = next_quad(q, ch.pick(f'{uid}.s{i}.cont', conts))
        segs.append(seg(f's{i}', *q, af=af, nc=nc, ns=ns))
    L = layouts(n)
    names = [k for k in (lays or L) if k in L]
    ctrls = [dict(c) for c in L[ch.pick(uid + '.ctrl', names)]]
    if len(ctrls) > 1 and ch.pick(uid + '.order', (0, 1)):
        ctrls.reverse()
    return wing(uid, sym, segs, ctrls)


def scaled(wings, k):
    """All vertices of the wings multiplied by k"""
    if k == 1.0:
        return wings
    return [dict(w, segs=[dict(s, v={q: [k*x for x in p] for q, p in s['v'].items()}) for s in w['segs']]) for w in wings]


# ----------------------------------------------------------------------
# Left-right reflection of a whole configuration
# ----------------------------------------------------------------------

def my(p):
    return [p[0], -p[1], p[2]]


def mirror_wing_y(w):
    """The mirror image of a wing about the xz plane, as a wing definition of its own"""
    if w['sym'] == 2:
        cs = [dict(c, defl=c['deflm'] if c['deflm'] is not None else c['defl'],
                   deflm=c['defl']) for c in w['ctrls']]
        return dict(w, ctrls=cs)
    segs = []
    for s in reversed(w['segs']):
        v = s['v']
        segs.append(dict(s, v={'a': my(v['b']), 'b': my(v['a']), 'c': my(v['d']), 'd': my(v['c'])}, af=[s['af'][1], s['af'][0]]))
    cs = [dict(c, si=c['so'], so=c['si'], ei=1 - c['eo'], eo=1 - c['ei'], xi=c['xo'], xo=c['xi'], hi=c['ho'], ho=c['hi']) for c in w['ctrls']]
    return dict(w, segs=segs, ctrls=cs)


def mirror_spec(spec):
    refs = dict(spec['refs'])
    refs['gcenter'] = my(refs['gcenter'])
    refs['rcenter'] = my(refs['rcenter'])
    return dict(spec, wings=[mirror_wing_y(w) for w in spec['wings']], refs=refs)


def mirror_state(d):
    return dict(d, **{k: -d.get(k, 0.0) for k in ('beta', 'rate_P', 'rate_R')})


CAMBER = (('NACA0000', 'NACA0000'), ('NACA2412', 'NACA2412'), ('NACA4415', 'NACA0010'))

EXTRA = {
    'none': None,
    'fin': wing('fin', 0, [seg('f0', (4.0, 0.0, 0.2), (4.6, 0.0, 1.6), (5.2, 0.0, 1.6), (5.1, 0.0, 0.2), nc=2, ns=2)],
                [ctrl('rud', 'flap', 'f0', 'f0', 0.2, 0.9, 0.7, 0.75, defl=6.0)]),
    'tail': wing('tail', 2, [seg('t0', (4.5, 0.2, 0.8), (4.8, 1.6, 0.9), (5.3, 1.6, 0.9), (5.3, 0.2, 0.8), af=('NACA1408', 'NACA0008'), nc=2, ns=2)],
                 [ctrl('elev', 'flap', 't0', 't0', 0.0, 1.0, 0.6, 0.65, defl=-4.0, deflm=3.0)]),
    'offset': wing('pod', 0, [seg('p0', (3.5, 0.7, 1.2), (3.7, 1.9, 1.3), (4.4, 1.9, 1.25), (4.5, 0.7, 1.2), af=('NACA2412', 'NACA2412'), nc=1, ns=3)]),
    'xy': wing('dual', 1, [seg('x0', (4.0, 0.5, 1.0), (4.3, 1.7, 1.3), (4.9, 1.7, 1.3), (5.1, 0.5, 1.0), nc=2, ns=1)]),
    'yz': wing('tandem', 3, [seg('y0', (4.0, 0.5, 1.0), (4.3, 1.7, 1.3), (4.9, 1.7, 1.3), (5.1, 0.5, 1.0), nc=1, ns=2)]),
    # all names but that of the wing as on the first wing
    'twin': wing('w_2', 2, [seg('s0', (4.2, 0.3, 0.5), (4.7, 1.5, 0.9), (5.3, 1.5, 0.9), (5.2, 0.3, 0.5), af=('NACA2408', 'NACA2408'), nc=2, ns=1)],
                 [ctrl('f', 'flap', 's0', 's0', 0.3, 0.9, 0.7, 0.65, defl=7.0, deflm=1.0), ctrl('l', 'slat', 's0', 's0', 0.2, 0.8, 0.2, 0.2, 0.1, 0.15, defl=-3.0, deflm=2.0)]),
}


def extra_wing(name):
    import copy
    return copy.deepcopy(EXTRA[name])


# ----------------------------------------------------------------------
# The aircraft shipped with the package
# ----------------------------------------------------------------------

SHIPPED = ('d150', 'optimale', 'NASA_CRM', 'bwb', 'boxwing')


def shipped(name, nc=1, ns=1, only=None, snap=True):
    """Specification of a database aircraft (of the staged copy) with uniform panel counts.
    snap: control edges about as close to a segment end as the merging distance are put onto it."""
    sn = lambda e: e if not snap else 0.0 if e < 0.0105 else 1.0 if e > 0.9895 else e
    import json
    import os
    from mc.pt import P
    with open(os.path.join(P.lib, 'pytornado', 'database', 'aircraft', name + '.json')) as fp:
        d = json.load(fp)
    wings = []
    for w in d['wings']:
        if only is not None and w['uid'] != only:
            continue
        segs = [seg(s['uid'], *(s['vertices'][k] for k in 'abcd'), af=(s['airfoils']['inner'], s['airfoils']['outer']), nc=nc, ns=ns) for s in w['segments']]
        cs = []
        for c in w.get('controls') or []:
            r, h = c['rel_vertices'], c.get('rel_hinge_vertices') or {}
            m = c.get('deflection_mirror')
            cs.append(ctrl(c['uid'], c['device_type'], c['segment_uid']['inner'], c['segment_uid']['outer'], sn(r['eta_inner']), sn(r['eta_outer']), r['xsi_inner'], r['xsi_outer'],
                           h.get('xsi_inner'), h.get('xsi_outer'), c['deflection'], None if not w['symmetry'] else c['deflection'] if m is None else m, nc=1))
        wings.append(wing(w['uid'], w['symmetry'], segs, cs))
    r = d['refs']
    return {'wings': wings, 'refs': {k: r[k] for k in ('gcenter', 'rcenter', 'area', 'chord', 'span')}}


def pick_shipped(ch, names=SHIPPED, counts=((1, 1), (2, 1), (1, 2))):
    n = ch.pick('name', names)
    nc, ns = ch.pick('counts', counts)
    return shipped(n, nc, ns)


def all_wings(names=SHIPPED):
    """(aircraft, wing) pairs"""
    return [(n, w['uid']) for n in names for w in shipped(n)['wings']]


def with_shipped(main, driver, bound=1, tag=9):
    """cases of a check plus those of the shipped aircraft"""
    from mc import explore
    cs, nodes, capped = main
    es, n2, c2 = explore.enumerate_cases(driver, bound=bound)
    return list(cs) + [((tag,) + tuple(k), dict(c, shipped=True)) for k, c in es], nodes + n2, capped or c2
